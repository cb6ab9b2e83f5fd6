"""Generated images: the listed layers, colours, order, scale, and file names."""

import os
import re
import shlex
import shutil
import subprocess
import tempfile
from .common import H

BOUNDS = ("1 or 2 images with up to 3 layers: any choice of the GERBER file and colour of each layer, any colours (0 to 255), any voxel size, oversampling (1 to 100), and margin; "
          "folder and image names with and without spaces")
ASSUMPTIONS = ["the external tools (gerbv, mogrify) are stand-ins which record their arguments and the project file; the quality of their images is not checked"]


RMTREE = shutil.rmtree


class Tools:
    """Record the calls of the external tools (shell command or list of arguments)."""

    def __init__(self, ctx, root):
        (self.ctx, self.root, self.calls) = (ctx, root, [])
        # only the scratch folder can be changed
        (remove, rmtree) = (os.remove, shutil.rmtree)

        def guard(f):
            def fct(path, *a, **k):
                if k.get("dir_fd") is None and not os.path.abspath(path).startswith(root+os.sep):
                    raise PermissionError("file outside of the folders: %s" % path)
                return f(path, *a, **k)
            return fct
        ctx.stub({"os": {"remove": guard(remove), "unlink": guard(remove), "makedirs": guard(os.makedirs), "mkdir": guard(os.mkdir)}, "shutil": {"rmtree": guard(rmtree)}})
        ctx.stub({"subprocess": {k: self.run for k in ("run", "call", "check_call", "check_output", "getoutput", "getstatusoutput")}, "os": {"system": self.run}})

    def run(self, cmd, *a, **k):
        arg = shlex.split(cmd) if isinstance(cmd, str) else [str(x) for x in cmd]
        arg = [x for x in arg if x not in ("2>/dev/null", ">/dev/null", "2>&1", "2>", ">", "/dev/null", "&>/dev/null")]
        call = {"tool": os.path.basename(arg[0]), "arg": arg[1:]}
        if call["tool"] == "gerbv":
            opt = self.gerbv(arg[1:])
            call.update(opt)
            try:
                with open(os.path.join(self.root, opt.get("-p") or opt.get("--project"))) as f:
                    call["project"] = f.read()
            except (OSError, TypeError):
                call["project"] = None
        self.calls.append(call)
        return subprocess.CompletedProcess(cmd, 0, "", "")

    @staticmethod
    def gerbv(arg):
        out = {"free": []}
        i = 0
        while i < len(arg):
            (x, i) = (arg[i], i+1)
            if x.startswith("--") and "=" in x:
                (x, v) = x.split("=", 1)
                out[x] = v
            elif x.startswith("-") and i < len(arg):
                (out[x], i) = (arg[i], i+1)
            else:
                out["free"].append(x)
        return out


def one(opt, *names):
    v = [opt[k] for k in names if k in opt]
    return v[0] if len(v) == 1 else None


def layers(text):
    """Layers of the project file: {number: (file, colour, alpha)}."""
    out = {}
    for part in re.split(r"\(define-layer!", text)[1:]:
        num = int(part.split()[0])
        name = re.search(r"'filename \"([^\"]*)\"", part).group(1)
        color = re.search(r"'color #\(([^)]*)\)", part).group(1).split()
        alpha = re.search(r"'alpha #\(([^)]*)\)", part).group(1)
        assert num not in out, "layer given twice"
        out[num] = (name, color, alpha, "visible #t" in part)
    return out


def h_convert(ctx, stack, folders, tags):
    """stack: number of layers of each image."""
    root = tempfile.mkdtemp()
    try:
        convert(ctx, root, stack, folders, tags)
    finally:
        if os.path.realpath(root).startswith(os.path.realpath(tempfile.gettempdir())+os.sep):
            RMTREE(root, ignore_errors=True)


def convert(ctx, root, stack, folders, tags):
    ctx.formats()
    png = os.path.join(root, folders[1])
    os.makedirs(png)
    tools = Tools(ctx, root)
    mod = ctx.load("pypeec.utils.gerber")
    files = {"g0": "top layer.gbr", "g1": "b.gbr"}
    color = {c: tuple(ctx.int("%s_%d" % (c, i), 0, 255) for i in range(3)) for c in ("c0", "c1")}
    (edge, back) = [tuple(ctx.int("%s_%d" % (c, i), 0, 255) for i in range(3)) for c in ("edge", "back")]
    export = {"margin": ctx.real("margin", lo=0, hi=1), "voxel": ctx.real("voxel", lo=1e-6, hi=1e-3), "oversampling": ctx.real("over", lo=1, hi=100), "folder_gerber": os.path.join(root, folders[0]), "folder_png": png}
    data = {"gerber_edge": "edge.gbr", "color_edge": edge, "color_background": back, "color_def": dict(color), "gerber_def": dict(files)}
    order = {t: [(ctx.choice("gerber_%s_%d" % (t, i), sorted(files)), ctx.choice("color_%s_%d" % (t, i), sorted(color))) for i in range(k)] for (t, k) in zip(tags, stack)}
    (err, _) = ctx.raises(mod.get_convert, export, data, {t: [{"gerber": g, "color": c} for (g, c) in v] for (t, v) in order.items()})
    ctx.check("the conversion succeeds", err is None)
    if err is not None:
        return
    ctx.check("no project file remains", os.listdir(png) == [])
    run = [c for c in tools.calls if c["tool"] == "gerbv"]
    ctx.check("one conversion per image", len(run) == len(tags))
    ctx.check("known tools", all(c["tool"] in ("gerbv", "mogrify") for c in tools.calls))
    for t in tags:
        out = os.path.join(png, t+".png")
        idx = [i for (i, c) in enumerate(tools.calls) if c["tool"] == "gerbv" and one(c, "-o", "--output") == out]
        ctx.check("one image with the name", len(idx) == 1)
        if len(idx) != 1:
            continue
        call = tools.calls[idx[0]]
        ctx.check("options of the image", one(call, "-x", "--export") == "png" and call["free"] == [] and call["project"] is not None)
        if call["project"] is None:
            continue
        # project
        lay = layers(call["project"])
        ctx.check("layers", sorted(lay) == list(range(-1, len(order[t])+1)))
        ref = {0: ("edge.gbr", edge), -1: (None, back)}
        ref.update({i+1: (files[g], color[c]) for (i, (g, c)) in enumerate(order[t])})
        for (i, (name, col)) in ref.items():
            (n, c, a, v) = lay[i]
            if name is not None:
                ctx.check("file of the layer", os.path.normpath(os.path.join(root, n)) == os.path.join(root, folders[0], name) and v)
            ctx.check("colour of the layer", ctx.And(*[ctx.number(x) == 257*y for (x, y) in zip(c, col)]))
            ctx.check("opaque layer", ctx.number(a) == 65535)
        # scale: the pixels have the size of the voxels after the oversampling is removed
        dpi = ctx.number(one(call, "-D", "--dpi"))
        ctx.check("resolution", ctx.And(dpi*export["voxel"] <= 25.4e-3*export["oversampling"]+0.5001*export["voxel"], dpi*export["voxel"] >= 25.4e-3*export["oversampling"]-0.5001*export["voxel"]))
        border = ctx.number(one(call, "-B", "--border"))
        ctx.check("margin", ctx.And(border <= 100*export["margin"]+1e-9, border > 100*export["margin"]-1-1e-9))
        mog = [c["arg"] for c in tools.calls[idx[0]+1:] if c["tool"] == "mogrify" and out in c["arg"]]
        early = [c["arg"] for c in tools.calls[:idx[0]] if c["tool"] == "mogrify" and out in c["arg"]]
        ctx.check("post-processing after the image", not early)
        words = [x for m in mog for x in m if x != out]
        trim = [i for (i, x) in enumerate(words) if x == "-trim"]
        samp = [i for (i, x) in enumerate(words) if x in ("-sample", "-resize", "-scale")]
        ctx.check("the border is cut, then the image is resampled", len(trim) == 1 and len(samp) == 1 and len(words) == 3 and trim < samp and words[samp[0]+1].endswith("%"))
        if len(trim) == 1 and len(samp) == 1 and words[samp[0]+1].endswith("%"):
            r = ctx.number(words[samp[0]+1][:-1])
            ctx.check("scale", ctx.And(r*export["oversampling"] <= 100+0.00501*export["oversampling"], r*export["oversampling"] >= 100-0.00501*export["oversampling"]))
    ctx.check("the data of the caller are unchanged", set(data["gerber_def"]) == set(files) and set(data["color_def"]) == set(color))


HARNESSES = [H("image/"+str(k), h_convert, stack=[k], folders=("gerber", "png"), tags=("a",)) for k in (0, 1, 2)]
HARNESSES.append(H("images", h_convert, stack=[1, 1], folders=("gerber", "png"), tags=("a", "b")))
HARNESSES.append(H("folder", h_convert, stack=[1], folders=("g e", "p n g"), tags=("a",)))
HARNESSES.append(H("name", h_convert, stack=[1], folders=("gerber", "png"), tags=("a b;c'd",)))
HARNESSES.append(H("image/3", h_convert, tier="thorough", stack=[3], folders=("gerber", "png"), tags=("a",)))
