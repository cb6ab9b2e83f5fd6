"""
Loads the modules of the repository from their current source, with the numerical
libraries replaced by the symbolic stand-ins. The only source transformation is
that `a % b` is routed through a function (formatting of log/error messages must not
evaluate a symbolic value).
"""

import ast
import builtins
import hashlib
import importlib
import math
import os
import sys
import types
from fractions import Fraction
from . import engine as eng
from . import scalar as sc
from . import snp
from . import ssp
from .engine import Unsupported

REPO = os.environ.get("PYPEEC_REPO", "/repo")


# ---------------------------------------------------------------- builtins of the code under test

def _sym_mod(a, b):
    if isinstance(a, str):
        try:
            return a % b
        except (Unsupported, TypeError, eng.Steer):
            return a
    return a % b


class _FmtGuard:
    """Formatting argument which never evaluates a symbolic value."""

    def __init__(self, x):
        self.x = x

    def __float__(self):
        m = sc.marker(self.x) if isinstance(self.x, sc.S) else None
        return 0.0 if m is None else float(m)

    def __int__(self):
        m = sc.marker(sc.trunc(self.x)) if isinstance(self.x, sc.S) else None
        return 0 if m is None else m

    __index__ = __int__
    def __str__(self):
        m = sc.marker(self.x) if isinstance(self.x, sc.S) else None
        return "<sym>" if m is None else str(m)
    __repr__ = __str__

    def __format__(self, s): return "<sym>"


def _guard(x):
    if isinstance(x, (sc.S, sc.SB, sc.C, snp.Arr)):
        return _FmtGuard(x)
    if isinstance(x, Fraction):
        return float(x)
    return x


def sym_mod(a, b):
    if isinstance(a, str):
        if isinstance(b, tuple):
            b = tuple(_guard(x) for x in b)
        elif isinstance(b, dict):
            b = {k: _guard(x) for (k, x) in b.items()}
        else:
            b = _guard(b)
        return a % b
    return a % b


class _TMeta(type):
    def __instancecheck__(cls, x):
        return cls.check(x)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.native) if isinstance(c, type) else False

    def __eq__(cls, o):
        return o is cls or o is cls.native

    def __hash__(cls):
        return hash(cls.native)


class sym_float(metaclass=_TMeta):
    native = float
    k = "f"

    @staticmethod
    def check(x):
        return isinstance(x, (float, Fraction)) or (isinstance(x, sc.S) and not x.i)

    def __new__(cls, x=0):
        if isinstance(x, str):
            return sc.num(float(x))
        if isinstance(x, snp.Arr):
            x = x.item()
        n = sc.num(x)
        if n is None or isinstance(n, sc.C):
            return float(x)
        if isinstance(n, sc.S):
            return sc.S(n.t, False)
        return n


class sym_int(metaclass=_TMeta):
    native = int
    k = "i"

    @staticmethod
    def check(x):
        return isinstance(x, (int, sc.SB)) or (isinstance(x, sc.S) and x.i)

    def __new__(cls, x=0, *a):
        if isinstance(x, str):
            return int(x, *a)
        if isinstance(x, snp.Arr):
            x = x.item()
        return sc.trunc(x)


class sym_complex(metaclass=_TMeta):
    native = complex
    k = "c"

    @staticmethod
    def check(x):
        return isinstance(x, (complex, sc.C))

    def __new__(cls, re=0, im=0):
        return sc.add(sc.C(0, 0), sc.add(re, sc.mul(im, sc.C(0, 1))))


class sym_bool(metaclass=_TMeta):
    native = bool
    k = "b"

    @staticmethod
    def check(x):
        return isinstance(x, (bool, sc.SB))

    def __new__(cls, x=False):
        if isinstance(x, (sc.S, sc.C, sc.SB)):
            return sc.truth(x)
        if isinstance(x, snp.Arr):
            return sc.truth(x.item())
        return bool(x)


def sym_round(x, n=None):
    if isinstance(x, (sc.S, Fraction)):
        return sc.rint(x) if not n else sc.div(sc.rint(sc.mul(x, 10**n)), 10**n)
    return round(x) if n is None else round(x, n)


def sym_abs(x):
    return abs(x)


def sym_isinstance(x, t):
    return isinstance(x, t)


class _Math(types.ModuleType):
    def __getattr__(self, name):
        tab = {"sqrt": sc.sqrt, "log": sc.log, "atan": sc.arctan, "exp": sc.exp, "sin": sc.sin, "cos": sc.cos,
               "floor": sc.floor, "ceil": sc.ceil, "trunc": sc.trunc, "fabs": sc.absolute, "inf": sc.INF, "nan": sc.NAN,
               "isnan": snp._isnan, "isinf": snp._isinf, "isfinite": lambda x: not (snp._isnan(x) or snp._isinf(x)),
               "pow": sc.power, "hypot": lambda x, y: sc.sqrt(sc.add(sc.mul(x, x), sc.mul(y, y))),
               "prod": lambda x, start=1: snp.MODULE.prod(list(x))*start, "fsum": lambda x: snp.MODULE.sum(list(x)),
               "isclose": snp.F["isclose"]}
        if name == "pi":
            return sc.pi()
        if name in tab:
            return tab[name]
        f = getattr(math, name)
        return snp._fallback("math."+name, f) if callable(f) else f


MATH = _Math("math")


# ---------------------------------------------------------------- stand-ins of other libraries

class Constants(types.ModuleType):
    """scipy.constants: the physical constants are arbitrary positive reals."""

    def __getattr__(self, name):
        if name == "pi":
            return sc.pi()
        if name in ("mu_0", "epsilon_0", "c", "speed_of_light"):
            import z3
            v = sc.from_z3(z3.Real(name))
            e = eng.ENGINE
            if e is not None and ("cst", name) not in e.path_state:
                e.path_state[("cst", name)] = True
                e.add(sc.to_z3(v) > 0)
                e.nonzero.add(sc.atom_of(z3.Real(name)))
                e.path_state.setdefault("pos", set()).add(sc.atom_of(z3.Real(name)))
            return v
        if name.startswith("__"):
            raise AttributeError(name)
        import scipy.constants as cst
        return sc.num(getattr(cst, name))


CONSTANTS = Constants("scipy.constants")


class _Null:
    """Logger / timer which does nothing."""

    def __call__(self, *a, **k): return _Null()
    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        return _Null()
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __iter__(self): return iter((_Null(), _Null(), _Null()))


class _SciLogger(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name == "get_logger":
            return lambda *a, **k: _Null()
        if name == "get_global":
            return lambda *a, **k: (0.0, 0)
        return lambda *a, **k: (0.0, "x", "x")


SCILOGGER = _SciLogger("scilogger")


class _SciLinalg(types.ModuleType):
    """scipy.linalg"""
    def __getattr__(self, name):
        if name == "norm":
            return snp._norm
        if name in snp.HOOKS:
            return snp.HOOKS[name]
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(snp.LINALG, name)


SCILINALG = _SciLinalg("scipy.linalg")


class _Missing(types.ModuleType):
    """Library without a stand-in: using it in a symbolic run is unsupported."""
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _MissingAttr(self.__name__+"."+name)


class _MissingAttr:
    def __init__(self, name):
        self._n = name

    def __call__(self, *a, **k): raise Unsupported("call of %s" % self._n)
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _MissingAttr(self._n+"."+name)


_TABLE = {
    "numpy": lambda: snp.MODULE,
    "numpy.linalg": lambda: snp.LINALG,
    "numpy.fft": lambda: snp.FFT,
    "numpy.random": lambda: snp.RANDOM,
    "scipy.sparse": lambda: ssp.SPS,
    "scipy.sparse.linalg": lambda: ssp.SLINALG,
    "scipy.sparse.csgraph": lambda: ssp.CSGRAPH,
    "scipy.fft": lambda: snp.FFT,
    "scipy.linalg": lambda: SCILINALG,
    "scipy.constants": lambda: CONSTANTS,
    "scilogger": lambda: SCILOGGER,
    "math": lambda: MATH,
}
_STUBBED = {"PIL", "pyvista", "vtk", "shapely", "rasterio", "joblib", "matplotlib", "pyvistaqt", "PyQt5", "qtpy", "scisave",
            "cupy", "pyfftw", "mkl_fft", "sksparse", "pydiso", "pypardiso", "pyamg", "scikits", "jsonschema", "IPython"}


class Modules:
    """A fresh set of modules of the repository."""

    def __init__(self, stubs=None):
        self.mods = {}
        self.stubs = dict(stubs or {})
        self.sources = {}
        self.builtins = dict(vars(builtins))
        self.builtins.update({
            "__import__": self._import,
            "float": sym_float, "int": sym_int, "complex": sym_complex, "bool": sym_bool, "round": sym_round,
        })

    # ------------------------------------------------------------------

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            base = ".".join(pkg[:len(pkg)-level+1])
            name = base+"."+name if name else base
        mod = self.get(name)
        if fromlist:
            for f in fromlist:
                if name.startswith("pypeec") and f != "*" and not hasattr(mod, f):
                    try:
                        setattr(mod, f, self.get(name+"."+f))
                    except ModuleNotFoundError:
                        pass
            return mod
        top = name.split(".")[0]
        if top == name:
            return mod
        # top-level package with the chain of attributes
        parent = self.get(top)
        cur = parent
        for i in range(1, len(name.split("."))):
            full = ".".join(name.split(".")[:i+1])
            sub = self.get(full)
            try:
                setattr(cur, full.split(".")[-1], sub)
            except (AttributeError, TypeError):
                pass
            cur = sub
        return parent

    def get(self, name):
        if name in self.mods:
            return self.mods[name]
        top = name.split(".")[0]
        if name in self.stubs:
            m = self._stub(name)
        elif name in _TABLE:
            m = _TABLE[name]()
        elif top == "pypeec":
            return self._repo(name)
        elif top == "scipy":
            m = self._pkg(name)
        elif top in _STUBBED:
            m = self._stub(name)
        else:
            m = importlib.import_module(name)
        self.mods[name] = m
        return m

    def _stub(self, name):
        m = _Missing(name)
        m.__path__ = []
        for (k, v) in self.stubs.get(name, {}).items():
            setattr(m, k, v)
        for full in self.stubs:
            if full.startswith(name+"."):
                sub = full[len(name)+1:].split(".")[0]
                setattr(m, sub, self.get(name+"."+sub))
        return m

    def _pkg(self, name):
        m = types.ModuleType(name)
        m.__path__ = []
        mods = self

        def ga(attr):
            if attr.startswith("__"):
                raise AttributeError(attr)
            return mods.get(name+"."+attr)
        m.__getattr__ = ga
        return m

    def _repo(self, name):
        rel = name.replace(".", "/")
        path = os.path.join(REPO, rel+".py")
        if os.path.isdir(os.path.join(REPO, rel)):
            m = types.ModuleType(name)
            m.__path__ = [os.path.join(REPO, rel)]
            m.__package__ = name
            self.mods[name] = m
            if name == "pypeec":
                mods = self

                def ga(attr):
                    if attr.startswith("__"):
                        raise AttributeError(attr)
                    try:
                        return mods.get("pypeec."+attr)
                    except ModuleNotFoundError:
                        return getattr(mods.get("pypeec.main"), attr)
                m.__getattr__ = ga
            else:
                init = os.path.join(REPO, rel, "__init__.py")
                if os.path.isfile(init) and os.path.getsize(init) > 0:
                    self._exec(m, init, name)
            return m
        if not os.path.isfile(path):
            raise ModuleNotFoundError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__package__ = name.rpartition(".")[0]
        m.__file__ = path
        self.mods[name] = m
        try:
            self._exec(m, path, name)
        except BaseException:
            del self.mods[name]
            raise
        return m

    def _exec(self, m, path, name):
        with open(path, "rb") as f:
            src = f.read()
        self.sources[name] = hashlib.sha256(src).hexdigest()[:16]
        code = _compile(path, src)
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["__sym_mod__"] = sym_mod
        exec(code, m.__dict__)


_CODE = {}


class _Rewrite(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(func=ast.Name("__sym_mod__", ast.Load()), args=[node.left, node.right], keywords=[]), node)
        return node


def _compile(path, src):
    key = (path, hashlib.sha256(src).digest())
    if key not in _CODE:
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(_Rewrite().visit(tree))
        _CODE[key] = compile(tree, path, "exec")
    return _CODE[key]
