"""
Symbolic scalars: booleans (SB), integers/reals (S: Laurent polynomials over z3 atoms),
and complex numbers (C: pair of reals). Concrete numbers stay exact (int / Fraction);
the only floats which occur are nan and +/-inf.
"""

import math
import numbers
from fractions import Fraction
import z3
from . import engine as eng
from .engine import Unsupported

NAN = float("nan")
INF = float("inf")

# ---------------------------------------------------------------- atoms

_ATOM_EXPR = []          # z3 expressions (Int or Real sort)
_ATOM_INT = []           # is the atom integral?
_ATOM_SQUARE = {}        # atom -> value of its square (exact algebraic constants)
_ATOM_KEY = {}
_SMALL = {}


def reset():
    """Atoms are kept: z3 expressions are hash-consed, and the table only grows."""


def atom_of(expr):
    key = expr.get_id()
    idx = _ATOM_KEY.get(key)
    if idx is None:
        idx = len(_ATOM_EXPR)
        _ATOM_KEY[key] = idx
        _ATOM_EXPR.append(expr)
        _ATOM_INT.append(expr.sort() == z3.IntSort())
    return idx


def _mono_mul(a, b):
    """Product of two monomials (sorted tuples of (atom, exponent)); returns (mono, algebraic?)."""
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for (k, e) in b:
        n = d.get(k, 0)+e
        if n == 0:
            del d[k]
        else:
            d[k] = n
    return tuple(sorted(d.items()))


def _norm_c(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def _reduce(terms):
    """Apply the algebraic rules (square of an exact root)."""
    if not _ATOM_SQUARE:
        return terms
    bad = False
    for m in terms:
        for (k, e) in m:
            if k in _ATOM_SQUARE and (e > 1 or e < 0):
                bad = True
    if not bad:
        return terms
    out = {}
    for (m, c) in terms.items():
        fac = {(): c}
        for (k, e) in m:
            if k in _ATOM_SQUARE and (e > 1 or e < 0):
                (q, r) = divmod(e, 2)
                sq = _ATOM_SQUARE[k]
                fac = {_mono_mul(mm, ((k, r),) if r else ()): cc*(Fraction(sq)**q) for (mm, cc) in fac.items()}
            else:
                fac = {_mono_mul(mm, ((k, e),)): cc for (mm, cc) in fac.items()}
        for (mm, cc) in fac.items():
            v = out.get(mm, 0)+cc
            if v == 0:
                out.pop(mm, None)
            else:
                out[mm] = _norm_c(v)
    return out


# ---------------------------------------------------------------- booleans

class SB:
    """Symbolic boolean."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng.cur().decide(self.e)

    def __repr__(self):
        return "SB(%s)" % self.e

    def __format__(self, spec):
        return "?"

    def __and__(self, o):
        return b_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return b_not(b_eq(self, o))
    __rxor__ = __xor__

    def __invert__(self):
        return b_not(self)

    def __eq__(self, o):
        if isinstance(o, (SB, bool)) or type(o).__name__ == "bool_":
            return b_eq(self, o)
        return num(self) == o

    def __ne__(self, o):
        return b_not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o): return num(self)+o
    def __radd__(self, o): return o+num(self)
    def __sub__(self, o): return num(self)-o
    def __rsub__(self, o): return o-num(self)
    def __mul__(self, o): return num(self)*o
    def __rmul__(self, o): return num(self)*o
    def __neg__(self): return -num(self)
    def __lt__(self, o): return num(self) < o
    def __le__(self, o): return num(self) <= o
    def __gt__(self, o): return num(self) > o
    def __ge__(self, o): return num(self) >= o
    def item(self): return self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def all(self, *a, **k): return self
    def any(self, *a, **k): return self


def is_bool(x):
    return isinstance(x, (bool, SB))


def zb(x):
    """z3 boolean of a (symbolic) boolean or number."""
    if isinstance(x, SB):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    t = truth(x)
    return t.e if isinstance(t, SB) else z3.BoolVal(bool(t))


def truth(x):
    """Truth value of a scalar as a (symbolic) boolean."""
    if isinstance(x, (bool, SB)):
        return x
    if isinstance(x, (S, C)):
        return x != 0
    return bool(x)


def b_not(x):
    x = truth(x)
    if isinstance(x, bool):
        return not x
    return mkb(z3.Not(x.e))


def mkb(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SB(e)


def b_and(a, b):
    a = truth(a)
    b = truth(b)
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return mkb(z3.And(a.e, b.e))


def b_or(a, b):
    a = truth(a)
    b = truth(b)
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return mkb(z3.Or(a.e, b.e))


def b_eq(a, b):
    a = truth(a)
    b = truth(b)
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else b_not(b)
    if isinstance(b, bool):
        return a if b else b_not(a)
    return mkb(a.e == b.e)


def b_all(lst):
    out = []
    for x in lst:
        x = truth(x)
        if x is False:
            return False
        if x is not True:
            out.append(x.e)
    if not out:
        return True
    return mkb(z3.And(*out))


def b_any(lst):
    out = []
    for x in lst:
        x = truth(x)
        if x is True:
            return True
        if x is not False:
            out.append(x.e)
    if not out:
        return False
    return mkb(z3.Or(*out))


# ---------------------------------------------------------------- numbers

class S:
    """Symbolic real or integer (kind 'f' or 'i'): Laurent polynomial over atoms."""
    __slots__ = ("t", "i", "_z", "_h")

    def __init__(self, t, i):
        self.t = t
        self.i = i
        self._z = None
        self._h = None

    # conversion
    def __repr__(self):
        return "S(%s)" % (z3.simplify(to_z3(self)),)

    def __str__(self):
        m = marker(self)
        return "<sym>" if m is None else str(m)

    def __format__(self, spec):
        m = marker(trunc(self) if spec.endswith("d") else self)
        return "<sym>" if m is None else format(m, spec)

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        if not self.i:
            raise TypeError("symbolic real used as an index")
        return eng.cur().concretize(to_z3(self))

    def __int__(self):
        return trunc(self).__index__() if not self.i else self.__index__()

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __hash__(self):
        if self.i:
            return hash(self.__index__())
        # the lookup compares the values (concrete numbers are not found)
        return 0x5e

    def __round__(self, n=None):
        return rint(self)

    def __trunc__(self):
        return trunc(self)

    # numpy scalar protocol
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def ndim(self): return 0
    @property
    def shape(self): return ()
    @property
    def size(self): return 1
    @property
    def dtype(self):
        from .snp import VDType
        return VDType("i" if self.i else "f")

    def conjugate(self): return self
    conj = conjugate
    def item(self): return self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def tolist(self): return self
    def astype(self, dt):
        from .snp import cast, kind_of_dtype
        return cast(self, kind_of_dtype(dt))

    # arithmetic
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __floordiv__(self, o): return floordiv(self, o)
    def __rfloordiv__(self, o): return floordiv(o, self)
    def __mod__(self, o): return mod(self, o)
    def __rmod__(self, o): return mod(o, self)
    def __divmod__(self, o): return floordiv(self, o), mod(self, o)
    def __pow__(self, o): return power(self, o)
    def __rpow__(self, o): return power(o, self)
    def __neg__(self): return mul(-1, self)
    def __pos__(self): return self
    def __abs__(self): return absolute(self)
    def __eq__(self, o): return _rich(eq, self, o, o)
    def __ne__(self, o):
        r = _rich(eq, self, o, o)
        return NotImplemented if r is NotImplemented else b_not(r)
    def __lt__(self, o): return _rich(less, self, o, o)
    def __le__(self, o): return _rich(less_equal, self, o, o)
    def __gt__(self, o): return _rich(less, o, self, o)
    def __ge__(self, o): return _rich(less_equal, o, self, o)


class C:
    """Complex number (exact concrete or symbolic parts)."""
    __slots__ = ("re", "im")

    def __init__(self, re, im=0):
        self.re = re
        self.im = im

    def __repr__(self):
        return "C(%r,%r)" % (self.re, self.im)

    def __str__(self):
        return format(self, "")

    def __format__(self, spec):
        v = [marker(x) if type(x) is S else float(x) for x in (self.re, self.im)]
        return "<cplx>" if None in v else format(complex(*v), spec)

    def __bool__(self): return bool(self != 0)
    def __hash__(self): return 0x5e
    def __complex__(self): raise Unsupported("complex() of a symbolic value")
    def __float__(self): raise TypeError("can't convert complex to float")
    def __int__(self): raise TypeError("can't convert complex to int")
    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im
    @property
    def ndim(self): return 0
    @property
    def shape(self): return ()
    @property
    def size(self): return 1
    def conjugate(self): return C(self.re, mul(-1, self.im))
    conj = conjugate
    def item(self): return self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __pow__(self, o): return power(self, o)
    def __neg__(self): return mul(-1, self)
    def __pos__(self): return self
    def __abs__(self): return absolute(self)
    def __eq__(self, o): return _rich(eq, self, o, o)
    def __ne__(self, o):
        r = _rich(eq, self, o, o)
        return NotImplemented if r is NotImplemented else b_not(r)
    def _ord(self, o): raise TypeError("complex numbers are not ordered")
    __lt__ = __le__ = __gt__ = __ge__ = _ord


# ---------------------------------------------------------------- coercion

_CONC = (int, Fraction)


def num(x):
    """Bring a Python/numpy number to the exact domain (int, Fraction, nan/inf, S, C)."""
    t = type(x)
    if t is int or t is Fraction or t is S or t is C:
        return x
    if t is bool:
        return int(x)
    if t is SB:
        return ite(x, 1, 0)
    if t is float:
        return _num_float(x)
    if t is complex:
        return C(_num_float(x.real), _num_float(x.imag))
    if isinstance(x, S):
        return S(x.t, x.i)
    if isinstance(x, numbers.Integral):
        return int(x)
    if type(x).__name__ in ("bool_", "bool"):
        return int(x)
    if isinstance(x, numbers.Real):
        return _num_float(float(x))
    if isinstance(x, numbers.Complex):
        return C(_num_float(float(x.real)), _num_float(float(x.imag)))
    if hasattr(x, "shape") and getattr(x, "shape", None) == () and hasattr(x, "item"):
        return num(x.item())
    return None


def _num_float(x):
    if x != x or x in (INF, -INF):
        return x
    if x == int(x) and abs(x) < 2**53:
        return int(x)
    return Fraction(repr(x))


def is_conc(x):
    """Is the value free of symbols?"""
    if isinstance(x, C):
        return is_conc(x.re) and is_conc(x.im)
    return not isinstance(x, (S, SB))


def is_special(x):
    return type(x) is float


def kind(x):
    if isinstance(x, (bool, SB)):
        return "b"
    if isinstance(x, int):
        return "i"
    if isinstance(x, S):
        return "i" if x.i else "f"
    if isinstance(x, C):
        return "c"
    if isinstance(x, (Fraction, float)):
        return "f"
    n = num(x)
    if n is None:
        return "O"
    k = kind(n)
    if k == "i" and not isinstance(x, numbers.Integral):
        return "f"
    return k


def _terms(x):
    if type(x) is S:
        return x.t
    if x == 0:
        return {}
    return {(): x}


def mk(t, i):
    """Scalar of a polynomial (concrete when constant)."""
    if not t:
        return 0
    if len(t) == 1 and () in t:
        return t[()]
    return S(t, i)


def _isint(x):
    return x.i if type(x) is S else type(x) is int


def from_z3(e):
    """Scalar for a z3 arithmetic expression."""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        f = e.as_fraction()
        return _norm_c(Fraction(f.numerator, f.denominator))
    return S({((atom_of(e), 1),): 1}, e.sort() == z3.IntSort())


def _const(c, as_int):
    if as_int:
        return z3.IntVal(c)
    c = Fraction(c)
    return z3.RealVal(str(c.numerator)+"/"+str(c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)


def _poly_z3(t, as_int):
    """z3 expression of a polynomial without negative exponents."""
    parts = []
    for m in sorted(t):
        c = t[m]
        fac = []
        if c != 1 or not m:
            fac.append(_const(c, as_int))
        for (k, e) in m:
            a = _ATOM_EXPR[k]
            if not as_int and _ATOM_INT[k]:
                a = z3.ToReal(a)
            fac += [a]*e
        parts.append(fac[0] if len(fac) == 1 else z3.Product(*fac))
    if not parts:
        return _const(0, as_int)
    return parts[0] if len(parts) == 1 else z3.Sum(*parts)


def _clear(t):
    """Multiply by the denominators: (polynomial terms, denominator monomial)."""
    den = {}
    for m in t:
        for (k, e) in m:
            if e < 0 and -e > den.get(k, 0):
                den[k] = -e
    if not den:
        return t, ()
    mono = tuple(sorted(den.items()))
    return {_mono_mul(m, mono): c for (m, c) in t.items()}, mono


def to_z3(x, as_int=None):
    """z3 expression of a scalar."""
    x = num(x)
    if isinstance(x, float):
        raise Unsupported("nan/inf reaches the solver")
    if type(x) is C:
        raise Unsupported("complex reaches the solver as a real")
    if type(x) is not S:
        return _const(x, (type(x) is int) if as_int is None else as_int)
    ai = x.i if as_int is None else as_int
    if ai and not x.i:
        raise Unsupported("real used as an integer")
    if x._z is not None and ai == x.i:
        return x._z
    (t, den) = _clear(x.t)
    z = _poly_z3(t, ai)
    if den:
        z = z/_poly_z3({den: 1}, False)
    if ai == x.i:
        x._z = z
    return z


def real_z3(x):
    x = num(x)
    return to_z3(x, as_int=False)


# ---------------------------------------------------------------- arithmetic

def _merge(ta, tb, sb):
    if len(tb) > len(ta) and sb == 1:
        (ta, tb) = (tb, ta)
    out = dict(ta)
    for (m, c) in tb.items():
        v = out.get(m, 0)+(c if sb == 1 else -c)
        if v == 0:
            del out[m]
        else:
            out[m] = _norm_c(v)
    return out


def _bin(f):
    def op(a, b):
        ta = type(a)
        tb = type(b)
        if ta is not int and ta is not S:
            a = num(a)
            ta = type(a)
            if a is None:
                return NotImplemented
        if tb is not int and tb is not S:
            c = b
            b = num(b)
            tb = type(b)
            if b is None:
                if isinstance(c, (list, tuple)):
                    from . import snp
                    return snp._bc(op, a, c)
                return NotImplemented
        return f(a, b, ta, tb)
    return op


@_bin
def add(a, b, ta, tb):
    if ta is C or tb is C:
        (ar, ai) = (a.re, a.im) if ta is C else (a, 0)
        (br, bi) = (b.re, b.im) if tb is C else (b, 0)
        return C(add(ar, br), add(ai, bi))
    if ta is S or tb is S:
        if ta is float or tb is float:
            return a if ta is float else b
        if ta is not S and a == 0:
            return b
        if tb is not S and b == 0:
            return a
        return mk(_merge(_terms(a), _terms(b), 1), _isint(a) and _isint(b))
    return a+b


@_bin
def sub(a, b, ta, tb):
    if ta is C or tb is C:
        (ar, ai) = (a.re, a.im) if ta is C else (a, 0)
        (br, bi) = (b.re, b.im) if tb is C else (b, 0)
        return C(sub(ar, br), sub(ai, bi))
    if ta is S or tb is S:
        if ta is float or tb is float:
            return a if ta is float else -b
        if tb is not S and b == 0:
            return a
        return mk(_merge(_terms(a), _terms(b), -1), _isint(a) and _isint(b))
    return a-b


@_bin
def mul(a, b, ta, tb):
    if ta is C or tb is C:
        if ta is not C:
            return C(mul(a, b.re), mul(a, b.im))
        if tb is not C:
            return C(mul(a.re, b), mul(a.im, b))
        return C(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)))
    if ta is S or tb is S:
        if ta is float or tb is float:
            (s, f) = (b, a) if ta is float else (a, b)
            if f != f:
                return f
            if bool(less(0, s)):
                return f
            if bool(less(s, 0)):
                return -f
            return NAN
        ii = _isint(a) and _isint(b)
        if ta is not S:
            (a, b, ta, tb) = (b, a, tb, ta)
        if tb is not S:
            if b == 0:
                return 0
            if b == 1:
                return a if a.i == ii else S(a.t, ii)
            return S({m: _norm_c(c*b) for (m, c) in a.t.items()}, ii)
        at = a.t
        bt = b.t
        out = {}
        if len(at) == 1 or len(bt) == 1:
            if len(at) != 1:
                (at, bt) = (bt, at)
            ((m1, c1),) = at.items()
            for (m2, c2) in bt.items():
                out[_mono_mul(m1, m2)] = _norm_c(c1*c2)
        else:
            for (m1, c1) in at.items():
                for (m2, c2) in bt.items():
                    m = _mono_mul(m1, m2)
                    v = out.get(m, 0)+c1*c2
                    if v == 0:
                        out.pop(m, None)
                    else:
                        out[m] = v
            out = {m: _norm_c(c) for (m, c) in out.items()}
        return mk(_reduce(out), ii)
    if ta is float or tb is float:
        return float(a)*float(b)
    return a*b


def _inv(b):
    """Inverse of a non-zero symbolic real."""
    if len(b.t) == 1:
        ((m, c),) = b.t.items()
        r = _reduce({tuple((k, -e) for (k, e) in m): _norm_c(1/Fraction(c))})
        return mk(r, False)
    # polynomial denominator: a named atom which is equal to the (normalised) polynomial
    lead = b.t[min(b.t)]
    t = {m: _norm_c(Fraction(c)/lead) for (m, c) in b.t.items()}
    key = ("den", frozenset(t.items()))
    st = eng.cur().path_state
    if key not in st:
        v = z3.Real("den!%d" % len([k for k in st if isinstance(k, tuple) and k[0] == "den"]))
        eng.cur().define(v, v == real_z3(S(t, False)), v != 0)
        st[key] = v
        st.setdefault("den_def", {})[atom_of(v)] = t
    return mul(_norm_c(1/Fraction(lead)), S({((atom_of(st[key]), -1),): 1}, False))


@_bin
def div(a, b, ta, tb):
    if tb is C:
        den = add(mul(b.re, b.re), mul(b.im, b.im))
        if is_conc(b.im) and b.im == 0:
            return div(a, b.re)
        if is_conc(b.re) and b.re == 0:
            return mul(mul(a, C(0, -1)), div(1, b.im))
        if type(den) is S and any(type(p) is S and (_definite(p.t, eng.cur()) or eng.cur().path_state.get(("nz", frozenset(p.t.items()))))
                                  for p in (b.re, b.im)):
            eng.cur().path_state[("nz", frozenset(den.t.items()))] = True
        return mul(mul(a, b.conjugate()), div(1, den))
    if ta is C:
        return C(div(a.re, b), div(a.im, b))
    if tb is S:
        if not nonzero(b):
            # division by zero: numpy returns nan or inf
            if ta is float:
                return NAN if a != a else a
            if bool(eq(a, 0)):
                return NAN
            return INF if bool(less(0, a)) else -INF
        if ta is float:
            return mul(a, b)
        if ta is not S and a == 0:
            return 0
        r = mul(a, _inv(b))
        if type(r) is S and r.i:
            r = S(r.t, False)
        return r
    if tb is float:
        if ta is S:
            if b != b:
                return NAN
            return 0
        return float(a)/b
    if b == 0:
        if ta is float:
            return a
        if ta is S:
            if bool(eq(a, 0)):
                return NAN
            return INF if bool(less(0, a)) else -INF
        return NAN if a == 0 else (INF if a > 0 else -INF)
    if ta is float:
        return a/float(b)
    if ta is S:
        return S({m: _norm_c(Fraction(c)/b) for (m, c) in a.t.items()}, False)
    return _norm_c(Fraction(a)/Fraction(b))


def _definite(t, e):
    """Sum of terms of one sign (even powers or positive atoms) with one non-zero term."""
    pos = e.path_state.get("pos", ())
    sign = None
    strict = False
    for (m, c) in t.items():
        s = c > 0
        if sign is None:
            sign = s
        elif s != sign:
            return False
        st = True
        for (k, n) in m:
            if k in pos or (k in _ATOM_SQUARE and str(_ATOM_EXPR[k]).startswith("sqrt")):
                continue
            if n % 2:
                return False
            if k not in e.nonzero:
                st = False
        strict = strict or st
    return strict


def nonzero(b):
    """Fork on b != 0 (without a query when all the factors are declared non-zero)."""
    e = eng.cur()
    if len(b.t) == 1:
        (m,) = b.t
        if all(k in e.nonzero or k in _ATOM_SQUARE for (k, _) in m):
            return True
    if _definite(b.t, e):
        return True
    key = ("nz", frozenset(b.t.items()))
    if key in e.path_state:
        return e.path_state[key]
    r = not bool(eq(b, 0))
    e.path_state[key] = r
    if r and len(b.t) == 1:
        for (k, _) in m:
            e.nonzero.add(k)
    return r


@_bin
def floordiv(a, b, ta, tb):
    if ta is S or tb is S:
        if tb is S:
            b = _conc_int(b)
            return floordiv(a, b)
        if b == 0:
            raise Unsupported("integer division by zero")
        if ta is S and a.i and type(b) is int and b > 0:
            return from_z3(z3.simplify(to_z3(a)/b))
        return floor(div(a, b))
    if ta is float or tb is float:
        return float(a)//float(b)
    if b == 0:
        raise ZeroDivisionError()
    return a//b


@_bin
def mod(a, b, ta, tb):
    if ta is S or tb is S:
        if tb is S:
            b = _conc_int(b)
        if ta is S and a.i and type(b) is int and b > 0:
            return from_z3(z3.simplify(to_z3(a) % b))
        return sub(a, mul(b, floordiv(a, b)))
    if b == 0:
        raise ZeroDivisionError()
    return a % b


def _conc_int(x):
    if type(x) is S:
        if x.i:
            return x.__index__()
        raise Unsupported("symbolic real divisor of an integer operation")
    return x


@_bin
def power(a, b, ta, tb):
    if tb is S and b.i:
        b = b.__index__()
        tb = int
    if tb is Fraction and b == Fraction(1, 2):
        return sqrt(a)
    if tb is Fraction and b == Fraction(-1, 2):
        return div(1, sqrt(a))
    if tb is Fraction and b.denominator == 2:
        return mul(power(a, int(b-Fraction(1, 2))), sqrt(a))
    if ta is int and tb is int and b < 0 and a != 0:
        return _norm_c(Fraction(a)**b)
    if ta in _CONC and tb is int:
        return _norm_c(Fraction(a)**b) if ta is Fraction else a**b
    if ta is float:
        return a**float(b)
    if tb is int:
        if b >= 0:
            r = 1
            for _ in range(b):
                r = mul(r, a)
            return r
        return div(1, power(a, -b))
    if ta in _CONC and tb in _CONC:
        return num(float(a)**float(b))
    raise Unsupported("symbolic power")


# ---------------------------------------------------------------- comparisons

def _expand_den(t, limit=20000):
    """True if the polynomial vanishes once the denominator atoms are replaced by their definitions."""
    e = eng.ENGINE
    den = e.path_state.get("den_def") if e is not None else None
    if not den:
        return False
    # definitions can contain denominators of earlier atoms
    for _ in range(100):
        ks = {k for m in t for (k, _) in m if k in den}
        if not ks:
            return not t
        k = max(ks)
        d = den[k]
        pows = {0: {(): 1}}
        out = {}
        for (m, c) in t.items():
            n = dict(m).get(k, 0)
            for q in range(1, n+1):
                if q not in pows:
                    pows[q] = _poly_mul(pows[q-1], d)
            rest = tuple(x for x in m if x[0] != k)
            for (mm, cc) in pows[n].items():
                key = _mono_mul(rest, mm)
                v = out.get(key, 0)+c*cc
                if v == 0:
                    out.pop(key, None)
                else:
                    out[key] = v
            if len(out) > limit:
                return False
        (t, _) = _clear(_reduce(out))
        if not t:
            return True
    return False


def _grouped_zero(t, limit=20000):
    """Zero test by groups of monomials with the same roots and functions: common denominators inside of the groups."""
    if eng.ENGINE is None:
        return False
    st = eng.ENGINE.path_state
    den = st.get("den_def", {})
    roots = st.get("sqrt_def", {})
    if not roots:
        return False
    memo = {}

    def heavy(k):
        if k not in memo:
            memo[k] = frozenset()
            if k in den:
                memo[k] = frozenset(a for m in den[k] for (x, _) in m for a in heavy(x))
            elif k in roots or _ATOM_EXPR[k].num_args() > 0:
                memo[k] = frozenset([k])
        return memo[k]
    groups = {}
    for (m, c) in t.items():
        key = frozenset(a for (k, _) in m for a in heavy(k))
        groups.setdefault(key, {})[m] = c
    if len(groups) == 1 and len(t) > 400:
        return False
    for g in groups.values():
        if not _cleared_zero(g, den, roots, limit):
            return False
    return True


def _cleared_zero(t, den, roots, limit):
    """Zero test after the multiplication with the (non-zero) denominators and the reduction of the roots."""
    for _ in range(60):
        low = {}
        for m in t:
            for (k, n) in m:
                low[k] = min(low.get(k, 0), n)
        low = {k: n for (k, n) in low.items() if n < 0}
        out = {}
        for (m, c) in t.items():
            d = dict(m)
            for (k, n) in low.items():
                d[k] = d.get(k, 0)-n
            fac = {(): c}
            rest = {}
            for (k, n) in d.items():
                if n == 0:
                    continue
                p = den.get(k) or (roots.get(k) if n > 1 else None)
                if p is None:
                    rest[k] = n
                    continue
                if k in den:
                    rep = n
                else:
                    (rep, odd) = divmod(n, 2)
                    if odd:
                        rest[k] = 1
                for _i in range(rep):
                    fac = _poly_mul(fac, p)
                    if len(fac) > limit:
                        return False
            rest = tuple(sorted(rest.items()))
            for (mm, cc) in fac.items():
                q = _mono_mul(rest, mm)
                v = out.get(q, 0)+cc
                if v == 0:
                    out.pop(q, None)
                else:
                    out[q] = v
            if len(out) > limit:
                return False
        t = _reduce(out)
        if not t:
            return True
        if all(n >= 0 and k not in den and not (k in roots and n > 1) for m in t for (k, n) in m):
            return False
    return False


def _poly_mul(a, b):
    out = {}
    for (m, c) in a.items():
        for (mm, cc) in b.items():
            k = _mono_mul(m, mm)
            v = out.get(k, 0)+c*cc
            if v == 0:
                out.pop(k, None)
            else:
                out[k] = v
    return out


def _zero_cond(t, i):
    """(symbolic) boolean: the Laurent polynomial is zero (denominators are non-zero)."""
    if not t:
        return True
    full = t
    (t, _) = _clear(t)
    if _expand_den(t) is True or _grouped_zero(full):
        return True
    if len(t) == 1:
        ((m, c),) = t.items()
        if not m:
            return False
        e = eng.ENGINE
        if e is not None and all(k in e.nonzero or k in _ATOM_SQUARE for (k, _) in m):
            return False
        # product is zero if a factor is zero
        return mkb(z3.Or(*[_ATOM_EXPR[k] == 0 for (k, _) in m]))
    z = _poly_z3(t, i)
    return mkb(z == 0)


def eq(a, b):
    if isinstance(a, SB) and is_bool(b) or isinstance(b, SB) and is_bool(a):
        return b_eq(a, b)
    a = num(a)
    b = num(b)
    if a is None or b is None:
        return False
    ta = type(a)
    tb = type(b)
    if ta is C or tb is C:
        (ar, ai) = (a.re, a.im) if ta is C else (a, 0)
        (br, bi) = (b.re, b.im) if tb is C else (b, 0)
        return b_and(eq(ar, br), eq(ai, bi))
    if ta is S or tb is S:
        if ta is float or tb is float:
            return False
        t = _merge(_terms(a), _terms(b), -1)
        return _zero_cond(t, _isint(a) and _isint(b))
    return a == b


def _rich(f, a, b, o):
    """Comparison operator: the other operand (e.g., an array) decides if it is not a number."""
    return f(a, b) if num(o) is not None else NotImplemented


def _cmp(a, b, strict):
    a = num(a)
    b = num(b)
    ta = type(a)
    tb = type(b)
    if a is None or b is None:
        raise TypeError("invalid comparison")
    if ta is C or tb is C:
        raise TypeError("complex numbers are not ordered")
    if ta is S or tb is S:
        if ta is float or tb is float:
            if ta is float:
                return a < 0 if a == a else False
            return b > 0 if b == b else False
        i = _isint(a) and _isint(b)
        d = mk(_merge(_terms(a), _terms(b), -1), i)
        if type(d) is not S:
            return d < 0 if strict else d <= 0
        z = to_z3(d)
        return mkb(z < 0 if strict else z <= 0)
    return a < b if strict else a <= b


def less(a, b):
    return _cmp(a, b, True)


def less_equal(a, b):
    return _cmp(a, b, False)


def greater(a, b):
    return _cmp(b, a, True)


def greater_equal(a, b):
    return _cmp(b, a, False)


def same(a, b):
    """Syntactic identity (never forks)."""
    if a is b:
        return True
    if isinstance(a, SB) or isinstance(b, SB):
        return isinstance(a, SB) and isinstance(b, SB) and a.e.eq(b.e)
    if isinstance(a, C) and isinstance(b, C):
        return same(a.re, b.re) and same(a.im, b.im)
    if isinstance(a, C) or isinstance(b, C):
        return False
    if type(a) is S or type(b) is S:
        return type(a) is S and type(b) is S and a.t == b.t and a.i == b.i
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


# ---------------------------------------------------------------- selection

def ite(c, a, b):
    c = truth(c)
    if isinstance(c, bool):
        return a if c else b
    if same(a, b):
        return a
    if is_bool(a) and is_bool(b):
        return mkb(z3.If(c.e, zb(a), zb(b)))
    na = num(a)
    nb = num(b)
    if na is None or nb is None or is_special(na) or is_special(nb):
        # not a number for the solver: fork
        return a if bool(c) else b
    if isinstance(na, C) or isinstance(nb, C):
        (ar, ai) = (na.re, na.im) if isinstance(na, C) else (na, 0)
        (br, bi) = (nb.re, nb.im) if isinstance(nb, C) else (nb, 0)
        return C(ite(c, ar, br), ite(c, ai, bi))
    if _isint(na) and _isint(nb):
        return from_z3(z3.If(c.e, to_z3(na), to_z3(nb)))
    return from_z3(z3.If(c.e, real_z3(na), real_z3(nb)))


def maximum(a, b):
    return _mm(a, b, True)


def minimum(a, b):
    return _mm(a, b, False)


def _mm(a, b, big):
    a = num(a)
    b = num(b)
    if is_special(a) or is_special(b):
        if a != a and is_special(a):
            return a
        if b != b and is_special(b):
            return b
    if isinstance(a, C) or isinstance(b, C):
        raise Unsupported("maximum of complex values")
    return ite(less_equal(b, a) if big else less_equal(a, b), a, b)


def absolute(x):
    x = num(x)
    if isinstance(x, C):
        if is_conc(x.im) and x.im == 0:
            return absolute(x.re)
        if is_conc(x.re) and x.re == 0:
            return absolute(x.im)
        return sqrt(add(mul(x.re, x.re), mul(x.im, x.im)), True)
    if type(x) is S:
        if len(x.t) == 1:
            ((m, c),) = x.t.items()
            if all((k in eng.cur().path_state.get("pos", ())) or k in _ATOM_SQUARE for (k, _) in m):
                return S({m: abs(c)}, x.i)
        return ite(less_equal(0, x), x, mul(-1, x))
    return abs(x)


def sign(x):
    x = num(x)
    if type(x) is S:
        return ite(less(0, x), 1, ite(less(x, 0), -1, 0))
    if is_special(x):
        return x if x != x else (1 if x > 0 else -1)
    return (x > 0)-(x < 0)


def floor(x):
    x = num(x)
    if type(x) is S:
        if x.i:
            return x
        return from_z3(z3.ToInt(real_z3(x)))
    if is_special(x):
        return x
    return math.floor(x)


def ceil(x):
    return mul(-1, floor(mul(-1, x)))


def trunc(x):
    x = num(x)
    if type(x) is S:
        if x.i:
            return x
        return ite(less_equal(0, x), floor(x), ceil(x))
    if is_special(x):
        return x
    return int(x)


MARKER = 30


def marker(x):
    """Number which stands for a symbolic value in a formatted text (None: not enabled)."""
    try:
        tab = eng.cur().path_state.get("formats")
    except Exception:
        return None
    if tab is None or len(tab) >= 250:
        return None
    tab.append(x)
    return 10**(MARKER+len(tab)-1)


def rint(x):
    """Round half to even."""
    x = num(x)
    if type(x) is S:
        if x.i:
            return x
        if eng.cur().path_state.get("eager_int"):
            return _rint_fork(x)
        f = floor(x)
        d = sub(x, f)
        up = add(f, 1)
        half = ite(eq(mod(f, 2), 0), f, up)
        return ite(less(d, Fraction(1, 2)), f, ite(less(Fraction(1, 2), d), up, half))
    if is_special(x):
        return x
    return round(x)


def _rint_fork(x, limit=64):
    """Fork over the rounded value (no integer variable in the formulas)."""
    def below(m):
        return truth_fork(less_equal(x, Fraction(2*m+1, 2)) if m % 2 == 0 else less(x, Fraction(2*m+1, 2)))
    if below(-1):
        m = -1
        while m > -limit:
            if not below(m-1):
                return m
            m -= 1
    else:
        m = 0
        while m < limit:
            if below(m):
                return m
            m += 1
    raise Unsupported("range of a rounded value")


def truth_fork(c):
    return bool(c) if isinstance(c, SB) else c


_ROOTS = {}


def root_const(n):
    """Exact square root of a positive rational: rational part times the root of a squarefree integer."""
    f = Fraction(n)
    v = f.numerator*f.denominator
    sq = 1
    p = 2
    w = v
    while p*p <= w and p < 10000:
        while w % (p*p) == 0:
            w //= p*p
            sq *= p
        p += 1
    r = math.isqrt(w)
    if r*r == w:
        sq *= r
        w = 1
    c = Fraction(sq, f.denominator)
    if w == 1:
        return _norm_c(c)
    if w not in _ROOTS:
        e = z3.Real("sqrt!%d" % w)
        k = atom_of(e)
        _ATOM_SQUARE[k] = w
        _ROOTS[w] = k
    k = _ROOTS[w]
    if eng.ENGINE is not None and ("root", w) not in eng.ENGINE.path_state:
        eng.ENGINE.path_state[("root", w)] = True
        eng.ENGINE.add(z3.And(_ATOM_EXPR[k] > 0, _ATOM_EXPR[k]*_ATOM_EXPR[k] == w))
        eng.ENGINE.nonzero.add(k)
    return S({((k, 1),): _norm_c(c)}, False)


def sqrt(x, nonneg=False):
    """Square root (nonneg: the argument is known to be non-negative, as a sum of squares)."""
    x = num(x)
    if isinstance(x, C):
        raise Unsupported("complex square root")
    if is_special(x):
        return NAN if x < 0 else x
    if type(x) is not S:
        if x < 0:
            return NAN
        if x == 0:
            return 0
        return root_const(x)
    e = eng.cur()
    # square of a monomial
    if len(x.t) == 1:
        ((m, c),) = x.t.items()
        if c > 0 and all(k % 2 == 0 for (_, k) in m):
            r = S({tuple((a, k//2) for (a, k) in m): 1}, x.i)
            return mul(root_const(c), absolute(r))
    key = ("sqrt", frozenset(x.t.items()))
    if key in e.path_state:
        return e.path_state[key]
    if not nonneg and bool(less(x, 0)):
        r = NAN
    else:
        v = z3.Real("sqrt!v%d" % len([k for k in e.path_state if k[0] == "sqrt"]))
        z = real_z3(x)
        e.define(v, v >= 0, v*v == z)
        r = from_z3(v)
        e.path_state.setdefault("sqrt_def", {})[atom_of(v)] = x.t
    e.path_state[key] = r
    return r


# transcendental functions: uninterpreted (with the listed exact values and axioms)
_UF = {}


def uf(name, x, exact=None, axiom=None):
    x = num(x)
    if isinstance(x, C):
        raise Unsupported("complex %s" % name)
    if type(x) is not S:
        if exact and x in exact:
            return exact[x]
        if is_special(x):
            with_np = {"log": math.log, "exp": math.exp, "arctan": math.atan}
            return with_np[name](x) if name in with_np and x == x else NAN
    if name not in _UF:
        _UF[name] = z3.Function("uf_"+name, z3.RealSort(), z3.RealSort())
    z = _UF[name](z3.simplify(real_z3(x), som=True))
    r = from_z3(z)
    if axiom is not None:
        axiom(x, r)
    return r


def log(x):
    return uf("log", x, {1: 0, 0: -INF})


def _exp_ax(x, r):
    e = eng.cur()
    e.add(to_z3(r) > 0)


def exp(x):
    x = num(x)
    if isinstance(x, C):
        if is_conc(x.re) and x.re == 0:
            return C(cos(x.im), sin(x.im))
        m = exp(x.re)
        return C(mul(m, cos(x.im)), mul(m, sin(x.im)))
    return uf("exp", x, {0: 1}, _exp_ax if eng.ENGINE is not None else None)


def arctan(x):
    return uf("arctan", x, {0: 0})


def _pi_fraction(x):
    """x = q*pi (q rational) or None."""
    x = num(x)
    if type(x) is not S:
        return 0 if x == 0 else None
    if len(x.t) == 1:
        ((m, c),) = x.t.items()
        if m == ((_pi_atom(), 1),):
            return Fraction(c)
    return None


_PI = []


def _pi_atom():
    if not _PI:
        _PI.append(atom_of(z3.Real("pi")))
    return _PI[0]


def pi():
    k = _pi_atom()
    e = eng.ENGINE
    if e is not None and "pi" not in e.path_state:
        e.path_state["pi"] = True
        e.nonzero.add(k)
        e.path_state.setdefault("pos", set()).add(k)
        e.path_state.setdefault("constants", []).append((_ATOM_EXPR[k], z3.Q(3141592, 1000000)))
        e.add(z3.And(_ATOM_EXPR[k] > z3.Q(314159, 100000), _ATOM_EXPR[k] < z3.Q(314160, 100000)))
    return S({((k, 1),): 1}, False)


def _cos_tab(q):
    """cos(q*pi), exact, for the multiples of pi/4 and pi/6."""
    q = q % 2
    if q > 1:
        q = 2-q
    s = 1
    if q > Fraction(1, 2):
        q = 1-q
        s = -1
    tab = {Fraction(0): 1, Fraction(1, 2): 0, Fraction(1, 3): Fraction(1, 2)}
    if q in tab:
        return s*tab[q]
    if q == Fraction(1, 4):
        return mul(s*Fraction(1, 2), root_const(2))
    if q == Fraction(1, 6):
        return mul(s*Fraction(1, 2), root_const(3))
    return None


def cos(x):
    q = _pi_fraction(x)
    if q is not None:
        r = _cos_tab(Fraction(q))
        if r is not None:
            return r
    return uf("cos", x)


def sin(x):
    q = _pi_fraction(x)
    if q is not None:
        r = _cos_tab(Fraction(q)-Fraction(1, 2))
        if r is not None:
            return r
    return uf("sin", x)
