"""
Path engine: the real code is re-executed once per feasible path; a branch on a
symbolic boolean asks z3 which sides are feasible and forks; an assertion is a z3
query (path condition AND NOT assertion).
"""

import random
import time
import z3


class Steer(BaseException):
    """Base of the exceptions steering the exploration (never caught by the code under test)."""


class Infeasible(Steer):
    """The current path contradicts its assumptions."""


class Unsupported(Steer):
    """The translator has no encoding for an operation."""


class Stop(Steer):
    """Exploration is stopped (counterexample found or budget used)."""


ENGINE = None


def cur():
    if ENGINE is None:
        raise Unsupported("symbolic value used outside of an exploration")
    return ENGINE


class Engine:
    def __init__(self, timeout_ms=20000, max_paths=100000, deadline=None):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.n_paths = 0
        self.n_reached = 0
        self.n_queries = 0
        self.n_feas = 0
        self.n_dis = 0
        self.t_solver = 0.0
        self.n_decisions = 0
        self.unknown = []
        self.cex = []
        self.labels = {}
        self.inputs = {}

    # ------------------------------------------------------------------ exploration

    def explore(self, fct):
        """Run fct() on every feasible path."""
        global ENGINE
        stack = [[]]
        while stack:
            if self.n_paths >= self.max_paths:
                self.unknown.append("path budget exhausted (%d)" % self.max_paths)
                break
            if self.deadline is not None and time.time() > self.deadline:
                self.unknown.append("time budget exhausted after %d paths" % self.n_paths)
                break
            prefix = stack.pop()
            self._start(prefix)
            ENGINE = self
            try:
                fct()
                self.n_paths += 1
                if self.n_reached or self.reachable():
                    self.n_reached += 1
            except Infeasible:
                pass
            except Stop:
                self.n_paths += 1
                break
            finally:
                ENGINE = None
            # alternatives discovered along the path (depth first)
            for alt in self.pending:
                stack.append(alt)
        return self

    def _start(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.assumed = []
        self.cache = {}
        self.inputs = {}
        self.nonzero = set()
        self.fresh_count = 0
        self.path_state = {}
        self.model_cache = None
        self.lazy = {}

    # ------------------------------------------------------------------ solver

    def define(self, var, *conds):
        """Definition of a new variable which has always a solution: only given to the solver once the variable is used."""
        self.lazy[var.get_id()] = conds

    def _activate(self, cond):
        if not self.lazy:
            return
        for k in _vars(cond) & self.lazy.keys():
            for c in self.lazy.pop(k, ()):
                self.add(c)

    def add(self, cond):
        """Add a constraint to the path."""
        self._activate(cond)
        self.solver.add(cond)
        self.assumed.append(cond)
        self.model_cache = None

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        self.add(cond)

    def assume_check(self, cond):
        self.assume(cond)
        if self._check([]) == z3.unsat:
            raise Infeasible()

    def _check(self, extra):
        t = time.time()
        self.n_queries += 1
        for x in extra:
            self._activate(x)
        quick = min(3000, self.timeout_ms)
        self.solver.set("timeout", quick)
        res = self.solver.check(*extra)
        self.alt_solver = self.solver
        if res == z3.unknown:
            res = self._check_hard(extra)
        self.t_solver += time.time() - t
        return res

    def _check_hard(self, extra):
        """Further attempts: only the constraints over the variables of the question, then other solvers."""
        self.alt_solver = None
        if extra:
            want = set()
            for x in extra:
                want |= _vars(x)
            sub = [a for a in self.assumed if _vars(a) <= want]
            s = z3.Solver()
            s.set("timeout", 5000)
            s.add(*sub)
            s.add(*extra)
            if s.check() == z3.unsat:
                return z3.unsat
        for mk in (lambda: z3.Tactic("qfnra-nlsat").solver(), z3.Solver, lambda: z3.SolverFor("QF_NIA")):
            try:
                s = mk()
                s.set("timeout", self.timeout_ms)
                s.add(*self.assumed)
                s.add(*extra)
                res = s.check()
            except z3.Z3Exception:
                res = z3.unknown
            if res != z3.unknown:
                self.alt_solver = s
                return res
        return z3.unknown

    def decide(self, cond):
        """Fork on a symbolic condition."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        if key in self.cache:
            return self.cache[key][1]
        self.n_decisions += 1
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
        else:
            self.n_feas += 1
            sat_t = self._check([cond]) != z3.unsat
            # the path itself is feasible: if one side is not, the other one is
            sat_f = not sat_t or self._check([z3.Not(cond)]) != z3.unsat
            if sat_t and sat_f:
                val = True
                self.pending.append(self.trace + [False])
            elif sat_t:
                val = True
            elif sat_f:
                val = False
            else:
                raise Infeasible()
        self.pos += 1
        self.trace.append(val)
        self.cache[key] = (cond, val)
        lit = cond if val else z3.Not(cond)
        self.add(lit)
        return val

    def concretize(self, expr):
        """Fork over all the feasible values of an integer expression."""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        key = ("c", expr.get_id())
        if key in self.cache:
            return self.cache[key][1]
        for _ in range(100000):
            # the candidate value must be the same at each re-execution of the path
            if self.pos < len(self.prefix):
                entry = self.prefix[self.pos]
                (val, taken) = entry
            else:
                self.n_feas += 1
                if self._check([]) != z3.sat:
                    raise Infeasible()
                mdl = self.alt_solver.model()
                val = mdl.eval(expr, model_completion=True).as_long()
                taken = True
                if self._check([expr != val]) != z3.unsat:
                    self.pending.append(self.trace + [(val, False)])
            self.n_decisions += 1
            self.pos += 1
            self.trace.append((val, taken))
            if taken:
                self.add(expr == val)
                self.cache[key] = (expr, val)
                return val
            self.add(expr != val)
        raise Unsupported("concretization limit")

    def entails(self, cond):
        """True if the path condition implies cond."""
        if cond is True or cond is False:
            return cond
        return self._check([z3.Not(cond)]) == z3.unsat

    def check(self, label, cond):
        """Discharge an assertion. Return True if it holds on this path for all values."""
        self.labels[label] = self.labels.get(label, 0) + 1
        if cond is True:
            # still a query: the negation is trivially unsatisfiable
            self.n_dis += 1
            return True
        neg = z3.BoolVal(True) if cond is False else z3.Not(cond)
        res = self._check([neg])
        if res == z3.unsat:
            self.n_dis += 1
            return True
        if res == z3.unknown:
            self.unknown.append("solver unknown: %s" % label)
            return None
        self.cex.append(self._model(label, neg))
        return False

    def _model(self, label, neg):
        """Concrete inputs of a counterexample (prefer values well inside the range of floats)."""
        base = self.alt_solver.model()
        best = base
        soft = []
        for (_, var) in self.inputs.items():
            if var.sort() == z3.RealSort():
                soft.append(var)
        for bound in (10, 1000, 10**6):
            ext = [neg]
            for var in soft:
                ext += [var <= bound, var >= -bound, z3.Or(var == 0, var >= z3.Q(1, 64), var <= -z3.Q(1, 64))]
            if self._check(ext) == z3.sat:
                best = self.alt_solver.model()
                break
        vals = {}
        for (name, var) in self.inputs.items():
            v = best.eval(var, model_completion=True)
            vals[name] = _value(v)
        return {"label": label, "inputs": vals, "trace": str(self.trace)}


    def reachable(self):
        """Is there a model of the complete path? (first with varied fixed inputs, which makes the query simple)"""
        if self.validation_model(random.Random(len(self.trace)), limit=4, only=True) is not None:
            return True
        return self._check([]) == z3.sat

    def validation_model(self, rng, limit=40, only=False):
        """Concrete inputs of the path with varied values (random where the path allows it)."""
        t0 = time.time()
        best = None
        fixed = []
        pos = self.path_state.get("posvar", set())
        cand = [v for (n, v) in self.inputs.items() if v.sort() == z3.RealSort() and "!" not in n and "~" not in n]
        rng.shuffle(cand)
        want = {}
        for v in cand:
            q = rng.choice([1, 2, 3, 5, 7, 9, 11, 13])
            r = rng.choice([2, 3, 4, 5, 7])
            neg = rng.random() < 0.5 and v.get_id() not in pos
            want[v] = (z3.Q(-q if neg else q, r), z3.Q(r, q))
        # auxiliary constants of the encoding
        for (v, lo) in self.path_state.get("constants", []):
            cand.append(v)
            want[v] = (lo, lo)
        stack = [cand]
        n = 0
        while stack and n < limit and time.time()-t0 < 10:
            grp = stack.pop()
            for side in (0, 1):
                ext = fixed+[(v, want[v][side]) for v in grp]
                n += 1
                m = self._solve_fixed(ext)
                if m is not None:
                    best = (m, ext)
                    fixed = ext
                    break
            else:
                if len(grp) > 1:
                    h = len(grp)//2
                    stack += [grp[h:], grp[:h]]
        self.t_solver += time.time()-t0
        if best is None and not only:
            if self._check([]) == z3.sat:
                best = (self.alt_solver.model(), [])
        if best is None:
            return None
        (mdl, ext) = best
        val = {v.get_id(): c for (v, c) in ext}
        return {n: _value(val[v.get_id()] if v.get_id() in val else mdl.eval(v, model_completion=True)) for (n, v) in self.inputs.items()}

    def _solve_fixed(self, ext):
        """Model of the path with some variables replaced by constants (the rest is then often linear)."""
        self.n_queries += 1
        sub = [(v, c if z3.is_expr(c) else z3.RealVal(c)) for (v, c) in ext]
        s = z3.Solver()
        s.set("timeout", 1500)
        for a in self.assumed:
            b = z3.simplify(z3.substitute(a, *sub)) if sub else a
            if z3.is_false(b):
                return None
            s.add(b)
        return s.model() if s.check() == z3.sat else None


_VARS = {}


def _vars(e):
    """Identifiers of the variables of an expression."""
    k = e.get_id()
    if k not in _VARS:
        out = set()
        seen = set()
        stack = [e]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.num_args() == 0:
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.get_id())
            stack.extend(x.children())
        _VARS[k] = (e, out)
    return _VARS[k][1]


def _value(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = v.as_fraction()
        return {"num": str(f.numerator), "den": str(f.denominator)}
    if z3.is_algebraic_value(v):
        f = v.approx(30).as_fraction()
        return {"num": str(f.numerator), "den": str(f.denominator)}
    raise Unsupported("model value: %s" % v)
