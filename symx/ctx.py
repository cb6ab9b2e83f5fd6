"""
Harness contexts. A harness is one Python function h(ctx, **params) which builds inputs,
calls the real code and states assertions. The same harness runs

- symbolically (Sym): inputs are solver variables, modules are loaded from the current
  source on top of the symbolic stand-ins, assertions are solver queries;
- concretely (Conc): inputs are given numbers, modules are the real ones with the real
  libraries, assertions are evaluated with a float tolerance. This is the replay of a
  counterexample and the validation of the translation on the models of the solver.
"""

import importlib
import sys
from fractions import Fraction
from unittest import mock
import numpy as np
from . import engine as eng

TOL = 1e-7


class Skip(Exception):
    """Concrete inputs which do not satisfy the assumptions."""


class Violated(Exception):
    def __init__(self, label, info=""):
        super().__init__(label, info)
        self.label = label
        self.info = info


class Sym:
    sym = True

    def __init__(self, engine, funcs=None):
        from . import loader, snp, ssp, scalar
        self.engine = engine
        self.sc = scalar
        self.snp = snp
        self.np = snp.MODULE
        self.lna = snp.LINALG
        self.sps = ssp.SPS
        self.ssp = ssp
        self.loader = loader
        self.mods = None
        self.stubs = {}
        self.sources = {}
        snp.HOOKS.clear()
        ssp.HOOKS.clear()

    # ---------------------------------------------------------- code under test

    def stub(self, stubs):
        """Replace attributes of third-party libraries: {module: {name: object}}."""
        for (k, v) in stubs.items():
            self.stubs.setdefault(k, {}).update(v)
            # replace the stand-ins of an earlier run
            m = self.mods.mods.get(k) if self.mods is not None else None
            if isinstance(m, self.loader._Missing):
                for (n, o) in v.items():
                    setattr(m, n, o)

    def load(self, name):
        if self.mods is None:
            self.mods = self.loader.Modules(self.stubs)
            self.mods.sources = self.sources
        return self.mods.get(name)

    def eager_int(self):
        """Fork over the values of rounded reals."""
        self.engine.path_state["eager_int"] = True

    def formats(self):
        """From now on, symbolic numbers are kept in formatted texts (see number)."""
        self.engine.path_state["formats"] = []

    def number(self, text):
        """Number in a text written by the code under test."""
        from fractions import Fraction
        v = Fraction(text)
        tab = self.engine.path_state["formats"]
        if v >= 10**(self.sc.MARKER-1):
            k = len(str(round(v*2)))-1
            if 0 <= k-self.sc.MARKER < len(tab) and abs(v-10**k) < Fraction(10**k, 1000):
                return tab[k-self.sc.MARKER]
        return int(v) if v.denominator == 1 else v

    def hook_linalg(self, name, f):
        self.snp.HOOKS[name] = f

    def hook_sparse(self, name, f):
        self.ssp.HOOKS[name] = f

    def patch(self, target, name, val):
        setattr(target, name, val)

    # ---------------------------------------------------------- inputs

    def _declare(self, name, var):
        if name in self.engine.inputs:
            raise RuntimeError("duplicate input %s" % name)
        self.engine.inputs[name] = var

    def real(self, name, lo=None, hi=None, pos=False, nonzero=False):
        import z3
        v = z3.Real(name)
        self._declare(name, v)
        s = self.sc.from_z3(v)
        e = self.engine
        if pos:
            e.add(v > 0)
            e.path_state.setdefault("pos", set()).add(self.sc.atom_of(v))
            e.path_state.setdefault("posvar", set()).add(v.get_id())
        if lo is not None:
            e.add(v >= self.sc.real_z3(lo))
        if hi is not None:
            e.add(v <= self.sc.real_z3(hi))
        if pos or nonzero:
            e.nonzero.add(self.sc.atom_of(v))
        if nonzero and not pos:
            e.add(v != 0)
        return s

    def int(self, name, lo, hi):
        import z3
        v = z3.Int(name)
        self._declare(name, v)
        self.engine.add(z3.And(v >= lo, v <= hi))
        if lo == hi:
            return lo
        return self.sc.from_z3(v)

    def bool(self, name):
        import z3
        v = z3.Bool(name)
        self._declare(name, v)
        return self.sc.SB(v)

    def cplx(self, name):
        return self.sc.C(self.real(name+".re"), self.real(name+".im"))

    def choice(self, name, lst):
        """A nondeterministic choice (forks)."""
        i = self.int(name, 0, len(lst)-1)
        return lst[i.__index__()]

    def conc(self, i):
        """Concretise an integer (fork over its values)."""
        return i.__index__()

    def arr(self, lst, kind=None):
        dt = {None: None, "i": np.int64, "f": np.float64, "c": np.complex128, "b": bool}[kind]
        return self.np.array(lst, dtype=dt)

    def uf(self, name, *args):
        """Value of an uninterpreted real function (arguments: numbers)."""
        import z3
        f = z3.Function("in_"+name, *([z3.RealSort()]*(len(args)+1)))
        return self.sc.from_z3(f(*[self.sc.real_z3(a) for a in args]))

    # ---------------------------------------------------------- logic

    def assume(self, cond):
        c = self.sc.truth(cond)
        if isinstance(c, bool):
            if not c:
                raise eng.Infeasible()
            return
        self.engine.assume(c.e)

    def And(self, *a): return self.sc.b_all(a)
    def Or(self, *a): return self.sc.b_any(a)
    def Not(self, a): return self.sc.b_not(a)
    def Implies(self, a, b): return self.sc.b_or(self.sc.b_not(a), b)
    def Iff(self, a, b): return self.sc.b_eq(a, b)
    def If(self, c, a, b): return self.sc.ite(c, a, b)

    def lt(self, a, b, tol=0): return self.sc.less(a, b)
    def le(self, a, b, tol=0): return self.sc.less_equal(a, b)

    def num(self, x): return self.sc.num(x)
    def frac(self, p, q): return self.sc.div(p, q)
    def abs(self, x): return self.sc.absolute(x)
    def conj(self, x): return self.snp._conj(x)
    def re(self, x): return self.sc.num(x).real
    def im(self, x): return self.sc.num(x).imag
    def sqrt(self, x): return self.sc.sqrt(x)
    def is_nan(self, x): return self.snp._isnan(x)
    @property
    def pi(self): return self.sc.pi()
    @property
    def j(self): return self.sc.C(0, 1)
    @property
    def mu_0(self): return self.loader.CONSTANTS.mu_0

    def lst(self, a):
        """Flat list of the elements."""
        if isinstance(a, (list, tuple)):
            return list(a)
        return list(self.snp.asarr(a).a.reshape(-1))

    def ints(self, a):
        """Flat list of (concrete) integers."""
        return [int(self.conc(self.sc.num(x))) if not isinstance(x, int) else x for x in self.lst(a)]

    # ---------------------------------------------------------- assertions

    def check(self, label, cond):
        import z3
        c = self.sc.truth(cond)
        r = self.engine.check(label, c.e if isinstance(c, self.sc.SB) else z3.BoolVal(bool(c)))
        if r is False:
            raise eng.Stop()

    def _eq1(self, a, b):
        """Equality which treats nan as equal to nan."""
        sc = self.sc
        na = self.snp._isnan(a)
        nb = self.snp._isnan(b)
        if na or nb:
            return na and nb
        if sc.is_bool(a) != sc.is_bool(b):
            a = sc.num(a) if sc.is_bool(a) else a
            b = sc.num(b) if sc.is_bool(b) else b
        return sc.eq(a, b)

    def eq_cond(self, a, b):
        sc = self.sc
        A = self.snp.asarr(a)
        B = self.snp.asarr(b)
        if A.a.shape != B.a.shape:
            return False
        return sc.b_all([self._eq1(x, y) for (x, y) in zip(A.a.reshape(-1), B.a.reshape(-1))])

    def eq(self, label, a, b, tol=None, scale=0):
        A = self.snp.asarr(a)
        B = self.snp.asarr(b)
        if A.a.shape != B.a.shape:
            self.check(label+" (shape %s, expected %s)" % (A.a.shape, B.a.shape), False)
            return
        self.check(label, self.eq_cond(A, B))

    def fail(self, label):
        self.check(label, False)

    def raises(self, fct, *args, **kw):
        """Run the code under test: (exception or None, result)."""
        try:
            return None, fct(*args, **kw)
        except (eng.Unsupported, eng.Infeasible, eng.Stop):
            raise
        except Exception as ex:
            return ex, None


class Conc:
    sym = False

    def __init__(self, inputs, rng=None):
        self.inputs = inputs
        self.rng = rng
        self.used = {}
        self.np = np
        import numpy.linalg as lna
        import scipy.sparse as sps
        self.lna = lna
        self.sps = sps
        self.patches = []
        self.violations = []
        self.n_checks = 0
        self.perm = 0

    # ---------------------------------------------------------- code under test

    def stub(self, stubs):
        for (k, v) in stubs.items():
            m = importlib.import_module(k)
            for (n, o) in v.items():
                p = mock.patch.object(m, n, o)
                p.start()
                self.patches.append(p)

    def close(self):
        for p in reversed(self.patches):
            p.stop()
        self.patches = []

    def load(self, name):
        _fix_random(self)
        return importlib.import_module(name)

    def eager_int(self): pass
    def formats(self): pass
    def number(self, text): return float(text)
    def hook_linalg(self, name, f): pass
    def hook_sparse(self, name, f): pass

    def patch(self, target, name, val):
        p = mock.patch.object(target, name, val)
        p.start()
        self.patches.append(p)

    # ---------------------------------------------------------- inputs

    def _get(self, name, default):
        if name in self.inputs:
            v = self.inputs[name]
            if isinstance(v, dict):
                v = int(v["num"])/int(v["den"])
        else:
            v = default()
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, pos=False, nonzero=False):
        def dflt():
            if self.rng is None:
                return 1.0
            a = 0.5 if pos else -2.0
            b = 2.0
            a = a if lo is None else float(lo)
            b = b if hi is None else float(hi)
            return self.rng.uniform(a, b)
        return float(self._get(name, dflt))

    def int(self, name, lo, hi):
        return int(self._get(name, lambda: lo if self.rng is None else self.rng.randint(lo, hi)))

    def bool(self, name):
        return bool(self._get(name, lambda: False if self.rng is None else self.rng.random() < 0.5))

    def cplx(self, name):
        return complex(self.real(name+".re"), self.real(name+".im"))

    def choice(self, name, lst):
        return lst[self.int(name, 0, len(lst)-1)]

    def conc(self, i): return int(i)

    def arr(self, lst, kind=None):
        dt = {None: None, "i": np.int64, "f": np.float64, "c": np.complex128, "b": bool}[kind]
        return np.array(lst, dtype=dt)

    def uf(self, name, *args):
        import hashlib
        h = hashlib.sha256(("%s%s" % (name, ["%.9g" % float(a) for a in args])).encode()).digest()
        return 0.5+int.from_bytes(h[:4], "big")/2**32

    # ---------------------------------------------------------- logic

    def assume(self, cond):
        if not bool(cond):
            raise Skip()

    def And(self, *a): return all(bool(x) for x in a)
    def Or(self, *a): return any(bool(x) for x in a)
    def Not(self, a): return not bool(a)
    def Implies(self, a, b): return (not bool(a)) or bool(b)
    def Iff(self, a, b): return bool(a) == bool(b)
    def If(self, c, a, b): return a if bool(c) else b
    def lt(self, a, b, tol=1e-9): return a < b+tol*max(1, abs(b))
    def le(self, a, b, tol=1e-9): return a <= b+tol*max(1, abs(b))
    def num(self, x): return x
    def frac(self, p, q): return p/q
    def abs(self, x): return abs(x)
    def conj(self, x): return np.conj(x)
    def re(self, x): return np.real(x)
    def im(self, x): return np.imag(x)
    def sqrt(self, x): return np.sqrt(x)
    def is_nan(self, x): return x != x
    @property
    def pi(self): return np.pi
    @property
    def j(self): return 1j
    @property
    def mu_0(self):
        import scipy.constants as cst
        return cst.mu_0

    def lst(self, a):
        if isinstance(a, (list, tuple)):
            return list(a)
        return list(np.asarray(a).reshape(-1))

    def ints(self, a):
        return [int(x) for x in self.lst(a)]

    # ---------------------------------------------------------- assertions

    def check(self, label, cond):
        self.n_checks += 1
        if not bool(cond):
            raise Violated(label)

    def eq_cond(self, a, b, tol=None, scale=0):
        A = np.asarray(a)
        B = np.asarray(b)
        if A.shape != B.shape:
            return False
        if A.size == 0:
            return True
        if A.dtype.kind in "OUS" or B.dtype.kind in "OUS":
            return bool(np.all(A == B))
        A = A.astype(complex)
        B = B.astype(complex)
        fin = np.isfinite(A) & np.isfinite(B)
        if not np.array_equal(np.isfinite(A), np.isfinite(B)):
            return False
        if not np.array_equal(np.isnan(A), np.isnan(B)):
            return False
        if not np.any(fin):
            return True
        tol = TOL if tol is None else tol
        # scale: magnitude of the terms which cancel each other in the values
        scale = max(np.max(np.abs(B[fin])), np.max(np.abs(A[fin])), scale, 1e-300)
        return bool(np.max(np.abs(A[fin]-B[fin])) <= tol*scale+1e-12)

    def eq(self, label, a, b, tol=None, scale=0):
        self.n_checks += 1
        if not self.eq_cond(a, b, tol, scale):
            raise Violated(label, "got %s, expected %s" % (np.asarray(a).tolist(), np.asarray(b).tolist()))

    def fail(self, label):
        raise Violated(label)

    def raises(self, fct, *args, **kw):
        try:
            return None, fct(*args, **kw)
        except Exception as ex:
            return ex, None


def _fix_random(ctx):
    """The random permutations of a replay are those of the counterexample."""
    if getattr(ctx, "_rnd", False):
        return
    ctx._rnd = True
    keys = sorted((k for k in ctx.inputs if k.startswith("rnd!")), key=lambda k: int(k[4:]))
    vals = [int(ctx.inputs[k]) for k in keys]
    if not vals:
        return
    import numpy.random as rnd

    def perm(n, axis=0):
        a = n if not np.isscalar(n) else None
        n = len(a) if a is not None else int(n)
        p = [vals.pop(0) for _ in range(n)]
        p = np.array(p, dtype=np.int64)
        return p if a is None else np.asarray(a)[p]

    class Rng:
        permutation = staticmethod(perm)

        @staticmethod
        def shuffle(x, axis=0):
            x[...] = perm(x)
    for (n, o) in (("permutation", perm), ("shuffle", Rng.shuffle), ("default_rng", lambda *a, **k: Rng())):
        p = mock.patch.object(rnd, n, o)
        p.start()
        ctx.patches.append(p)
