"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for (a, b) in mech], "observe_at": observe, "hook_needed": None}})
L = "pypeec/"
p("P01", "FFT and direct products equal the defining dense matrix product",
  "For every Green tensor, every set and order of input/output element indices, and every complex vector, the matrix-vector operators (potential, inductance, coupling) return exactly the sum over the elements of the tensor entry at the relative voxel position (with the sign rule of the component) times the vector entry. The FFT method (any supported library option, combined or split tensors) and the direct method give the same result, and the reverse coupling operator is the transpose of the forward one.",
  ["inputs", "configurations"], "all real tensors (coupling components vanishing on their zero plane), all index subsets and orders, all complex vectors, both multiplication methods, split/combined, NumPy/SciPy",
  "The tests run a few geometries with a single option set (FFT, split, SciPy); the direct and combined code, non-cubic grids and unsorted indices are never compared with the definition.",
  [L+"lib_matrix/multiply_fft.py", L+"lib_matrix/multiply_direct.py", L+"lib_matrix/matrix_multiply.py", L+"lib_matrix/fourier_transform.py"],
  [("circulant embedding and slicing", "multiply_fft.get_prepare/get_multiply"), ("dense block assembly", "multiply_direct.get_prepare"), ("operator wrappers", "matrix_multiply.get_operator_*")],
  ["matrix_multiply.get_operator_potential", "matrix_multiply.get_operator_inductance", "matrix_multiply.get_operator_coupling"])
p("P02", "System matrices carry the documented physical scaling and reciprocity",
  "Resistances, inductances, potential coefficients and electric-magnetic couplings of the faces and voxels are the documented products of resistivity, voxel dimensions, vacuum permeability and Green coefficients, with the direction of each face deciding which dimensions enter. The two coupling operators between electric and magnetic faces are transposes of each other for every geometry, and a problem without electric or without magnetic faces yields operators which return zeros.",
  ["inputs", "configurations"], "all voxel dimensions, resistivities, Green tensors, subsets of voxels and voxel orders within the stated grid sizes",
  "Only a handful of geometries with few voxel shapes are run, and only global quantities are compared with stored references.",
  [L+"lib_solver/system_matrix.py", L+"lib_solver/problem_value.py"],
  [("face scaling", "system_matrix.get_inductance_matrix"), ("voxel scaling", "system_matrix.get_potential_matrix"), ("face-voxel projection", "system_matrix.get_coupling_matrix"), ("resistances", "problem_value.get_resistance_vector")],
  ["system_matrix.get_inductance_matrix", "system_matrix.get_potential_matrix", "system_matrix.get_coupling_matrix", "problem_value.get_resistance_vector"])
p("P03", "Voxel geometry: faces, incidence and coordinates describe the voxel grid",
  "An internal face exists exactly between every two neighbouring voxels of the selected set, and its column of the incidence matrix holds +1 and -1 for exactly these two voxels in the orientation of its axis, with the rows in the order of the voxel list. The voxel coordinates are the centres of the grid cells of a structure centred at the given centre.",
  ["inputs", "configurations"], "all grids within the size bound, all subsets and orders of selected voxels, all voxel dimensions and centres",
  "The tests contain a few fixed geometries; the subsets and orders of voxels are unbounded.",
  [L+"lib_solver/voxel_geometry.py"],
  [("voxel coordinates", "voxel_geometry.get_voxel_coordinate"), ("incidence matrix", "voxel_geometry.get_incidence_matrix"), ("reduction", "voxel_geometry.get_reduce_matrix")],
  ["voxel_geometry.get_voxel_coordinate", "voxel_geometry.get_incidence_matrix", "voxel_geometry.get_reduce_matrix"])
p("P04", "The assembled equation system is the documented PEEC system",
  "For every frequency (including DC), every resistance, inductance, potential and coupling operator, every incidence matrix and every current/voltage source, the system operator, the coupling operators and the right-hand side express Kirchhoff's voltage law for the faces, Kirchhoff's current law for the voxels and one source equation per source voxel. A vector which satisfies these equations is a solution of the system and vice versa, the source equations always concern the voxel of their own source value, and the index maps split a solution into the matching parts.",
  ["inputs", "configurations"], "all real/complex operator coefficients, frequencies, source values and source positions within the size bound; DC and AC; with/without magnetic domain",
  "The tests only see converged solutions of a few circuits; a sign or index error for an unusual mix of sources or for magnetic materials at DC is not sampled.",
  [L+"lib_solver/equation_system.py"],
  [("operators", "equation_system.get_system_operator/get_coupling_operator"), ("sources", "equation_system.get_source_vector/get_source_matrix"), ("solution layout", "equation_system.get_system_sol_idx")],
  ["equation_system.get_system_operator", "equation_system.get_coupling_operator", "equation_system.get_source_vector", "equation_system.get_source_matrix", "equation_system.get_system_sol_idx"])
p("P05", "The preconditioner is the exact inverse of its simplified system",
  "Given an exact factorisation of the Schur complement, applying the preconditioner to any vector returns the solution of the simplified block system with diagonal impedances, potential coefficients, incidence and source blocks. This holds for the electric and the magnetic system, for AC and DC, and for all diagonal values and right-hand sides.",
  ["inputs", "configurations"], "all diagonal impedances/potentials, incidence matrices, source blocks, and right-hand sides within the size bound; AC and DC",
  "A wrong preconditioner only slows the iterative solver down, so that no test which compares solutions can see it.",
  [L+"lib_solver/equation_system.py", L+"lib_matrix/matrix_factorization.py"],
  [("Schur complement", "equation_system.get_cond_matrix"), ("block solve", "equation_system.get_cond_operator"), ("factorisation wrapper", "matrix_factorization.get_factorize")],
  ["equation_system.get_cond_matrix", "equation_system.get_cond_operator", "matrix_factorization.get_factorize"])
p("P06", "Extracted fields, losses and energies are consistent with the solution",
  "Voxel current densities, flux densities, potentials and divergences, loss and energy densities are the documented functions of the face and voxel solution; the sum of the losses over the materials equals the integral of the loss densities, and losses are never negative for non-negative resistances. The integral quantities of a sweep (losses, energies, apparent power) obey the complex power balance of the solved equations.",
  ["inputs"], "all solutions, resistances, operators, incidence matrices, voxel orders and dimensions within the size bound",
  "Tests compare two scalars per example with stored references; vector fields, splits between domains and signs of cross terms are not checked.",
  [L+"lib_solver/extract_solution.py"],
  [("field extraction", "extract_solution.get_sol_extract_field and related"), ("integrals", "extract_solution.get_integral and get_material")],
  ["extract_solution"])
p("P07", "Source terminal quantities refer to the source's own voxels",
  "For every source, the reported voltage is the mean potential of its voxels, the reported current is the sum of the currents of its voxels, and the reported power is the sum over its voxels of the voltage times the conjugate current of the same voxel. The result does not depend on the order in which domains are listed in the materials and sources, and the power used as convergence monitor equals the sum of the reported source powers.",
  ["inputs", "configurations"], "all solutions and all orders/partitions of domains over materials and sources within the size bound",
  "All examples list the domains of sources and materials in one order and mostly use one source per domain.",
  [L+"lib_solver/extract_solution.py", L+"lib_solver/extract_convergence.py", L+"lib_solver/problem_geometry.py"],
  [("source extraction", "extract_solution.get_source"), ("convergence monitor", "extract_convergence"), ("position maps", "problem_geometry.get_source_pos")],
  ["extract_solution.get_source", "extract_convergence.get_power", "problem_geometry.get_source_pos"])
p("P08", "Material and source values are expanded onto the right voxels",
  "Every voxel of a material domain gets the resistivity or susceptibility of its material (per-voxel or lumped, isotropic or per axis), every voxel of a source gets its share of the source value such that the terminal values are preserved (lumped) or the per-voxel values are kept (distributed). The index lists of materials and sources contain exactly the voxels of their domains, and invalid combinations are rejected with an error.",
  ["inputs", "configurations"], "all domain partitions, material/source assignments, values and lumped/distributed x isotropic/anisotropic combinations within the size bound",
  "Few combinations of lumped/distributed and isotropic/anisotropic appear in the examples, mostly with a single domain per material.",
  [L+"lib_solver/problem_geometry.py", L+"lib_solver/problem_value.py"],
  [("indices", "problem_geometry"), ("values", "problem_value")],
  ["problem_geometry", "problem_value"])
p("P09", "Mesh resampling and cropping preserve the described geometry",
  "After cropping the empty border and resampling, every domain covers exactly the same region of space as before: each original voxel is replaced by exactly the sub-voxels located inside it, and the voxel size, the total size and the centre are updated consistently. No voxel of any domain is lost or duplicated.",
  ["inputs", "configurations"], "all grids, domain definitions, resampling factors, voxel sizes and centres within the bound",
  "The examples use few resampling settings and compare only voxel counts and global results.",
  [L+"lib_mesher/voxel_resampling.py"],
  [("index remapping", "voxel_resampling.get_remesh / get_reduce")],
  ["voxel_resampling"])
p("P10", "Domain conflicts are resolved by the rules and never silently kept",
  "After the conflict resolution, no voxel belongs to two domains: the rules are applied in order, removing the shared voxels exactly from the domain designated to lose them and touching nothing else. With the random resolution each shared voxel ends in exactly one of the domains which contained it, and an unresolved conflict is reported as an error.",
  ["inputs", "configurations"], "all domain definitions (with overlaps), rule lists and random permutations within the bound",
  "The number of overlap patterns and rule orders is exponential; the examples have at most one or two rules.",
  [L+"lib_mesher/voxel_conflict.py"], [("conflict resolution", "voxel_conflict.get_conflict")], ["voxel_conflict.get_conflict"])
p("P11", "Images and index lists are meshed to the voxels they depict",
  "With the image mesher, a voxel belongs to a domain if and only if the pixel at its position in the image of its layer has one of the colours of the domain (first image row at the largest y, layers stacked along z with their repetition count). With the voxel mesher, the grid contains exactly the given indices, and invalid images, sizes or indices are rejected with an error.",
  ["inputs", "configurations"], "all images, colour lists and layer stacks within the size bound; all index lists",
  "The examples contain a few images; any pixel pattern must be mapped.",
  [L+"lib_mesher/mesher_png.py", L+"lib_mesher/mesher_voxel.py"],
  [("pixel mapping", "mesher_png.get_mesh"), ("index mesher", "mesher_voxel.get_mesh")], ["mesher_png.get_mesh", "mesher_voxel.get_mesh"])
p("P12", "Shape and surface meshes place the voxels at the right position",
  "With the 2D shape mesher, a voxel belongs to a domain if and only if the combined shape of the domain in the layer of the voxel contains the pixel of the voxel, with layers stacked in order and pixel positions matching the reported grid origin and voxel size. With the surface mesher, the voxels fully inside an axis-aligned box belong to its domain and the voxels away from it do not. The voxel size follows the requested step or voxel number, and non-positive steps or voxel numbers are rejected with an error.",
  ["inputs", "configurations"], "all bounding boxes, steps, shapes (arbitrary inside/outside maps) and layer stacks within the bound",
  "The examples contain a few shapes with nicely aligned bounds.",
  [L+"lib_mesher/mesher_shape.py", L+"lib_mesher/mesher_stl.py"],
  [("size and raster", "mesher_shape.get_mesh"), ("size and voxelisation", "mesher_stl.get_mesh")], ["mesher_shape.get_mesh", "mesher_stl.get_mesh"])
p("P13", "Connection rules are accepted exactly when the geometry satisfies them",
  "The mesher accepts a geometry if and only if every required connection is present and every forbidden connection is absent, where domains are connected or adjacent through neighbouring voxels of the listed domains. The reported connected components are a partition of all the non-empty voxels in which two neighbouring voxels always share a component.",
  ["inputs", "configurations"], "all domain definitions and rules within the size bound",
  "Connectivity has exponentially many patterns; the examples contain accepted geometries only.",
  [L+"lib_mesher/voxel_integrity.py"], [("graph", "voxel_integrity")], ["voxel_integrity.get_integrity"])
p("P14", "Accepted field evaluation points lie outside of all voxels",
  "Every point kept for the magnetic field evaluation lies strictly outside of every non-empty voxel, points which are clearly away (more than one voxel dimension from the centre along one axis) from all the non-empty voxels are never dropped, and when the complete cloud is required, a point at a non-empty voxel is an error. The order and the coordinates of the kept points are unchanged.",
  ["inputs", "configurations"], "all points, voxel sizes, grid centres and voxel subsets within the bound",
  "Point positions are continuous; tests use a few fixed clouds.",
  [L+"lib_mesher/voxel_point.py"], [("point test", "voxel_point.get_point")], ["voxel_point.get_point"])
p("P15", "Each sweep is solved once, in dependency order, with its own initial value",
  "For every set of sweep definitions and every initialisation graph, each sweep is solved exactly once, after the sweep it is initialised from, and receives exactly the initial solution of that sweep (or none). Serial and parallel execution give the same results, unknown or cyclic initialisations are rejected with an error and never drop or hang a sweep.",
  ["histories", "schedules", "configurations"], "all initialisation maps up to the stated number of sweeps, serial and parallel execution",
  "The examples define one or two chains; the number of initialisation graphs is exponential.",
  [L+"lib_solver/sweep_joblib.py", L+"run/solver.py"], [("sweep tree", "sweep_joblib.get_run_sweep")], ["sweep_joblib.get_run_sweep"])
p("P16", "Convergence status reflects the residual, the solver and the stop criteria",
  "The reported convergence flags are true if and only if the corresponding criterion holds for the returned solution: residual norm under the threshold, iterative solver terminated successfully, or power change within tolerance over the required history. The iteration limits of the segregated and iterative solvers are respected, the returned solution is the last iterate, and a run is flagged successful only if all the conditions hold.",
  ["inputs", "histories", "configurations"], "all residual/power sequences up to the stated number of iterations and all options, solver outcomes arbitrary",
  "Tests only contain converging problems with the coupled solver and one tolerance file.",
  [L+"lib_solver/equation_solver.py", L+"lib_matrix/matrix_iterative.py", L+"lib_matrix/matrix_condition.py", L+"lib_solver/extract_convergence.py"],
  [("status", "equation_solver.get_solver"), ("condition", "equation_solver.get_condition")], ["equation_solver.get_solver", "equation_solver.get_condition"])
p("P17", "Plots show for each cell and point the data of that cell and point",
  "In the viewer and plotter data, the cell of every non-empty voxel carries the domain, material, source, component and field values of exactly that voxel, and each point carries its own field values. This holds for every voxel order and for voxels without a given quantity, which never receive values of other voxels. The scaling, phase, filtering and clamping options are applied to each cell as documented, and each sweep and plot is shown (or saved) with its own data.",
  ["inputs", "configurations"], "all grids, voxel orders, domain partitions and field values within the bound",
  "The plot tests only check that plotting does not crash.",
  [L+"lib_plot/parse_viewer.py", L+"lib_plot/parse_plotter.py", L+"lib_plot/parse_voxel.py"],
  [("grid data", "parse_voxel"), ("viewer data", "parse_viewer"), ("plotter data", "parse_plotter")], ["parse_viewer", "parse_plotter", "parse_voxel"])
p("P18", "Voxel index utilities are exact and reject what is out of range",
  "The conversion between linear voxel indices and (x, y, z) indices is a bijection with x as the fastest index; it agrees with the numbering used by the mesher and solver, and every index outside of the grid is rejected with an error.",
  ["inputs"], "all grid sizes within the bound and all integers",
  "Range checks on non-cubic grids are not covered by any test.",
  [L+"utils/voxel.py"], [("conversions", "utils.voxel")], ["utils.voxel"])
p("P19", "Fourier series helpers invert each other and keep the caller's data",
  "Sampling the reconstructed signal of a Fourier spectrum and transforming it again gives the same spectrum for every band-limited spectrum, and the reconstruction is the documented sum of cosines. The helpers do not modify their arguments, so that repeated calls give identical results.",
  ["inputs", "histories"], "all real signals / complex spectra up to the stated length",
  "No test calls these helpers.",
  [L+"utils/fourier.py"], [("transforms", "utils.fourier")], ["utils.fourier"])
p("P20", "The impedance matrix extraction recovers the impedance matrix",
  "For terminal voltages and currents generated by any symmetric impedance matrix, with enough independent excitations, the extraction returns that matrix, and its resistances, inductances, quality factors and coupling coefficients follow the documented formulas at every frequency. The terminal quantities are the difference of the source and sink voltages and the mean of the currents, and the symmetry expansion only permutes terminals.",
  ["inputs", "configurations"], "all symmetric complex impedance matrices, excitations, frequencies and permutations up to the stated number of windings",
  "No test exercises the matrix extraction.",
  [L+"utils/matrix.py"], [("extraction", "utils.matrix.get_matrix/get_symmetry/get_extract")], ["utils.matrix"])
p("P21", "Green functions and coupling tensors have the required symmetries and values",
  "The Green tensors depend only on the relative position of two voxels, are permuted with the axes of the geometry, and the first coefficient equals the self term at distance zero. Near interactions use the analytical integral whose sixth mixed derivative is the inverse distance, far interactions the point formula, and the coupling tensor vanishes on the zero plane of each component.",
  ["inputs", "configurations"], "all voxel dimensions and grid positions within the bound, all far-field thresholds; identities over the reals with logarithm and arctangent as uninterpreted functions",
  "Tests use a few voxel aspect ratios and compare integral quantities with a tolerance of 1e-4.",
  [L+"lib_matrix/green_function.py", L+"lib_solver/system_tensor.py"],
  [("integrals", "green_function"), ("tensors", "system_tensor.get_green_tensor/get_coupling_tensor")], ["system_tensor", "green_function"])
p("P22", "The magnetic field at the points follows the Biot-Savart and charge laws",
  "The magnetic field of each evaluation point is the sum over the current elements of the Biot-Savart law and over the magnetic charges of the Coulomb law, with the documented element positions, dimensions and orientation. The field depends linearly on the solution, and each point gets its own value for all point and element orders and chunk sizes.",
  ["inputs", "configurations"], "all solutions, points, voxel dimensions, orders and evaluation methods within the bound",
  "Only one of the evaluation methods is run by the tests and the field values are not compared.",
  [L+"lib_solver/extract_solution.py"], [("field", "extract_solution.get_magnetic_field")], ["extract_solution"])
p("P23", "Failures reach the caller and never leave an output file",
  "If any stage of the mesher, solver, viewer or plotter fails, the entry point raises the error (and the command line returns a non-zero code) and no output file is written or overwritten; without failure the output file holds the computed data and the code is zero. The input data given by the caller are not modified by a run.",
  ["fault_sequences", "configurations"], "all single faults at every stage (load, run, write) for every command and entry point",
  "The tests run the success path only.",
  [L+"main.py", L+"script.py", L+"run/mesher.py", L+"run/solver.py", L+"run/viewer.py", L+"run/plotter.py"],
  [("entry points", "main.run_*"), ("command line", "script.run_arguments")], ["main", "script.run_arguments"])
p("P24", "Inconsistent problem definitions are rejected before solving",
  "A problem is accepted if and only if every domain used by a material or source exists in the voxel structure, every source domain belongs to an electric material, and no voxel is claimed twice by electric or magnetic materials or sources. Unknown plot or sweep tags are rejected in the viewer and plotter.",
  ["configurations"], "all assignments of domains to materials and sources within the bound, all tag selections",
  "The tests contain valid definitions only.",
  [L+"lib_check/check_data_options.py", L+"lib_check/check_data_format.py", L+"lib_solver/problem_geometry.py"],
  [("checks", "check_data_options"), ("index checks", "problem_geometry.get_material_indices")], ["problem_geometry", "check_data_options"])
p("P25", "Floating-point results are accurate to the stated tolerance",
  "The computed impedances and fields of a converged run agree with the exact solution of the discretised equations within the numerical tolerance of the solver, including rounding and cancellation in the analytical Green integrals.",
  ["inputs"], "all geometries and frequencies",
  "The rounding error depends on aspect ratios and distances which the examples do not sample.",
  [L+"lib_matrix/green_function.py", L+"lib_matrix/matrix_iterative.py"], [("analytical integrals", "green_function"), ("GMRES", "matrix_iterative")], ["solver output"])
p("P26", "Surface voxelisation contains the voxels inside the closed surface",
  "For every closed surface mesh, the surface mesher assigns to a domain exactly the voxels whose centre is inside the surface.",
  ["inputs"], "all closed surface meshes",
  "The examples contain a few STL files.",
  [L+"lib_mesher/mesher_stl.py"], [("voxelisation", "mesher_stl")], ["mesher_stl.get_mesh"])
p("P27", "A solver run returns the solution of the given problem for every sweep",
  "A complete run of the solver returns, for each sweep, the currents, potentials, losses, energies, terminal quantities, material losses, magnetic field and residual which the circuit equations assign to the solution vector of the iterative solver for the given geometry, and for the frequency, material values and source values of this very sweep. Sweeps start from zero or from the sweep they are initialised with, the reported voxels, faces and counters are those of the problem, and a sweep is reported as converged only if its criteria hold. The global status is true if and only if all sweeps converged.",
  ["inputs", "configurations"], "all dimensions, materials, sources, frequencies, coupling tensors and iterates of complete runs within the bound",
  "The tests run complete examples, but compare only the convergence flag, the losses and the energy of each sweep with one stored value.",
  [L+"run/solver.py"], [("run", "run.solver.run"), ("sweeps", "run.solver._run_solver_sweep")], ["run.solver.run"])
p("P28", "A mesher run returns the described geometry or rejects it",
  "A complete run of the mesher returns, for each domain, exactly the region of space which the voxel indices, images, or shapes and the conflict rules assign to it, whatever cropping and resampling is chosen, together with the connected components, the evaluation points outside of the voxels, and counters, volumes and areas which agree with it. The run fails if and only if a voxel remains in two domains, a connection or adjacency rule is violated on the final structure, a rule uses an unknown domain, or a point of a full cloud is not outside. The caller's data are not modified.",
  ["inputs", "configurations"], "all overlapping assignments of voxels, all images and rectangles, dimensions and points within the bound, combined with cropping, resampling, rules, and random resolution",
  "The tests run complete examples, but compare only the number of voxels with a stored value.",
  [L+"run/mesher.py", L+"lib_mesher/voxel_summary.py"], [("run", "run.mesher.run"), ("summary", "voxel_summary.get_summary")], ["run.mesher.run"])
p("P29", "Malformed input data are rejected before any computation",
  "The mesher, solver, viewer and plotter accept the geometry, problem, tolerance, voxel, solution, viewer and plotter data exactly when they have the documented format: every required field is present, strings and lists have the required length, option names are known, numbers have the right type (floats are not integers) and are not below the documented minimum, and the data of a mesher, layout or source match the chosen type. Malformed data raise an error before any computation or plot starts; well-formed data are never rejected by the format checks.",
  ["inputs", "configurations"], "all values of every number, and all single deviations (type, name, missing field, length) from well-formed data at every field",
  "The tests contain well-formed data only.",
  [L+"lib_check/check_data_format.py", L+"lib_check/check_data_options.py", L+"data/schema_geometry.yaml", L+"data/schema_problem.yaml", L+"data/schema_tolerance.yaml", L+"data/schema_list_viewer.yaml", L+"data/schema_list_plotter.yaml", L+"run/mesher.py", L+"run/solver.py", L+"run/viewer.py", L+"run/plotter.py"],
  [("schemas", "check_data_format"), ("options", "check_data_options")], ["run.mesher.run", "run.solver.run", "run.viewer.run", "run.plotter.run"])
p("P30", "Generated layer images show the listed layers in order, colour, and scale",
  "The conversion of GERBER files makes exactly one PNG image per entry of the stack, in the chosen folder and with the name of the entry. The image shows exactly the listed layers in the listed order, each with its own GERBER file and its own opaque colour, together with the board edge and the background. The resolution is such that one pixel of the final image is one voxel for every voxel size and oversampling, the margin is the requested percentage, and the border is trimmed before the resampling. No temporary file remains. Folder and image names with spaces or special characters work.",
  ["inputs", "configurations"], "all voxel sizes, oversampling factors, margins, colours, and all assignments of files and colours to the layers",
  "No test converts GERBER files (the external tools are not installed).",
  [L+"utils/gerber.py"], [("convert", "get_convert")], ["utils.gerber.get_convert"])
p("P31", "Every plot is shown or saved once; status plots show their own sweep",
  "For every plot mode, each selected plot of each selected sweep is shown or saved exactly once: as one window with its tag and title, menu, and size, opened before the event loop starts (qt, the default), once in the notebook with the notebook size (nb), as one PNG file in the folder, named after the name and the tags, with the image size in pixels (save), or not at all (debug, no file). Saved and debug plots are closed at the end, and an error of the event loop is raised. The convergence plot shows the relative error of the active and reactive power for the initial guess and every iteration in order, with respect to the final power of its own sweep; the residuum plot counts every equation of its own sweep once, with the number of equations and the RMS residuum in the title. The solution data are not modified.",
  ["inputs", "configurations"], "all residua, powers, sizes, exit codes, plot modes, and selections of sweeps and plots",
  "The tests only check that the debug mode does not crash.",
  [L+"lib_plot/manage_plotgui.py", L+"lib_plot/manage_matplotlib.py", L+"run/viewer.py", L+"run/plotter.py"], [("plot manager", "manage_plotgui.PlotGui"), ("status plots", "manage_matplotlib.get_plot_plotter")], ["run.viewer.run", "run.plotter.run"])
p("P32", "Results do not depend on earlier runs or on the solving process",
  "The results of a run of the solver, mesher, viewer or plotter (and of each of their computation steps) are determined by the data and options passed to this run: they do not depend on earlier runs in the same Python process with other data, options, or files, whether these succeeded or failed at any point, nor on the worker process which solves a sweep of a parallel run. Results returned by earlier runs and the plots made by them are not modified, shown, or saved again by later runs.",
  ["inputs", "histories", "configurations"], "all inputs of the later run after an earlier run with other data, options, images, or plot modes, or after a failure at any library call; all sweeps in separate worker processes",
  "Every test is a run on its own which is compared with a stored value; the parallel sweeps are never executed by the tests.",
  [L+"run/solver.py", L+"run/mesher.py", L+"lib_matrix/multiply_fft.py", L+"lib_matrix/fourier_transform.py", L+"lib_matrix/matrix_factorization.py", L+"lib_solver/sweep_joblib.py", L+"lib_plot/manage_plotgui.py"],
  [("options of the libraries", "run.solver._run_solver_options"), ("sweeps in processes", "sweep_joblib.get_run_sweep"), ("plot manager", "manage_plotgui.PlotGui")],
  ["run.solver.run", "run.mesher.run", "run.viewer.run", "run.plotter.run"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
