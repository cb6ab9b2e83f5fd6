"""
Symbolic stand-in for numpy: arrays of exact/symbolic scalars.

An array (Arr) wraps a native object array, so that the indexing, broadcasting and
view semantics are those of numpy itself; the elements are the scalars of scalar.py.
Functions without an encoding run on native numpy when their arguments are free of
symbols, and raise Unsupported otherwise.
"""

import builtins
import itertools
import types
from fractions import Fraction
import numpy as np
import z3
from . import engine as eng
from . import scalar as sc
from .engine import Unsupported
from .scalar import S, SB, C, num, NAN, INF

_ORDER = {"b": 0, "i": 1, "f": 2, "c": 3, "O": 4}
_NATIVE = {"b": np.dtype(bool), "i": np.dtype(np.int64), "f": np.dtype(np.float64),
           "c": np.dtype(np.complex128), "O": np.dtype(object)}


class VDType:
    """dtype seen by the code under test."""

    def __init__(self, k):
        self.k = k
        self.d = _NATIVE[k]

    def __getattr__(self, name):
        return getattr(self.d, name)

    def __eq__(self, o):
        if isinstance(o, VDType):
            return self.k == o.k
        try:
            return np.dtype(o) == self.d
        except TypeError:
            return False

    def __hash__(self):
        return hash(self.d)

    def __repr__(self):
        return repr(self.d)


def kind_of_dtype(dt):
    if dt is None:
        return None
    if isinstance(dt, VDType):
        return dt.k
    if isinstance(dt, type) and isinstance(getattr(dt, "k", None), str):
        return dt.k
    d = np.dtype(dt)
    k = d.kind
    if k == "u":
        return "i"
    if k in "bifcO":
        return k
    return "O"


def _max_kind(*ks):
    return max(ks, key=lambda k: _ORDER[k])


def _scan_kind(a):
    k = "b"
    best = -1
    for x in a.flat:
        o = _ORDER[sc.kind(x)]
        if o > best:
            best = o
            k = "bifcO"[o]
    if best < 0:
        return "f"
    return k


def cast(x, k):
    """Cast a scalar to a kind (numpy unsafe casting)."""
    if k is None or k == "O":
        return x
    if k == "b":
        return sc.truth(x)
    n = num(x)
    if n is None:
        raise ValueError("invalid value for a numeric array: %r" % (x,))
    if k == "c":
        return n if isinstance(n, C) else C(n, 0)
    if isinstance(n, C):
        n = n.re
    if k == "i":
        n = sc.trunc(n)
        # native cast of nan and inf
        return -2**63 if sc.is_special(n) else n
    if type(n) is S and n.i:
        return n
    return n


# ---------------------------------------------------------------- array

def _obj(shape, fill=0):
    a = np.empty(shape, dtype=object)
    if a.size:
        a[...] = fill
    return a


def _fill(a, lst):
    flat = a.reshape(-1)
    for (i, x) in enumerate(lst):
        flat[i] = x
    return a


def from_list(lst, shape, k=None):
    a = np.empty(len(lst), dtype=object)
    for (i, x) in enumerate(lst):
        a[i] = x
    a = a.reshape(shape)
    return Arr(a, k if k is not None else _scan_kind(a))


class Arr:
    __array_priority__ = 1000
    __slots__ = ("a", "k")

    def __init__(self, a, k):
        self.a = a
        self.k = k

    # ---------------------------------------------------------- protocol

    def __array_function__(self, func, types_, args, kwargs):
        f = getattr(MODULE, func.__name__)
        return f(*args, **kwargs)

    def __array_ufunc__(self, ufunc, method, *args, **kwargs):
        f = getattr(MODULE, ufunc.__name__)
        if method == "__call__":
            return f(*args, **kwargs)
        return getattr(f, method)(*args, **kwargs)

    def __array__(self, dtype=None, copy=None):
        if not is_conc_arr(self):
            raise Unsupported("conversion of a symbolic array to a native array")
        r = native(self)
        return r if dtype is None else r.astype(dtype)

    # ---------------------------------------------------------- attributes

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(np.ndarray, name):
            raise AttributeError(name)
        raise Unsupported("array attribute %s" % name)

    @property
    def shape(self): return self.a.shape
    @shape.setter
    def shape(self, s): self.a.shape = _cshape(s)
    @property
    def ndim(self): return self.a.ndim
    @property
    def size(self): return self.a.size
    @property
    def dtype(self): return VDType(self.k)
    @property
    def nbytes(self): return self.a.size*_NATIVE[self.k].itemsize
    @property
    def itemsize(self): return _NATIVE[self.k].itemsize
    @property
    def T(self): return Arr(self.a.T, self.k)
    @property
    def flat(self): return Arr(self.a.reshape(-1), self.k)
    @property
    def flags(self): return self.a.flags
    @property
    def base(self): return self.a.base

    @property
    def real(self):
        if self.k != "c":
            return self
        return _map(lambda x: num(x).real, self, k="f")

    @real.setter
    def real(self, v):
        self[...] = _bc(lambda x, r: C(num(r), cast(x, "c").im), self, v, k="c")

    @property
    def imag(self):
        if self.k != "c":
            return _map(lambda x: 0, self, k=self.k)
        return _map(lambda x: num(x).imag, self, k="f")

    @imag.setter
    def imag(self, v):
        self[...] = _bc(lambda x, r: C(cast(x, "c").re, num(r)), self, v, k="c")

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self.a)):
            yield self[i]

    def __repr__(self):
        return "Arr(%s, %r)" % (self.k, self.a)

    def __str__(self): return "<array>"
    def __format__(self, spec): return "<array>"

    def __bool__(self):
        if self.a.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(sc.truth(self.a.reshape(-1)[0]))

    def __index__(self):
        if self.a.ndim != 0:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self.a[()].__index__()

    def __int__(self): return int(self.a.reshape(-1)[0])
    def __float__(self): return float(self.a.reshape(-1)[0])
    def __hash__(self): raise TypeError("unhashable type: array")

    def __contains__(self, v):
        return bool(MODULE.any(self == v))

    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()

    # ---------------------------------------------------------- indexing

    def __getitem__(self, key):
        (mode, key) = _key(key, self.a.shape, True)
        if mode == "sym":
            return _get_sym(self, key)
        r = self.a[key]
        if isinstance(r, np.ndarray):
            return Arr(r, self.k)
        return r

    def __setitem__(self, key, val):
        (mode, key) = _key(key, self.a.shape, False, val)
        if isinstance(val, Arr):
            v = val.a
            if _ORDER[val.k] > _ORDER[self.k] or self.k == "c":
                v = _map(lambda x: cast(x, self.k), val, k=self.k).a
        elif isinstance(val, (np.ndarray, list, tuple)):
            v = _map(lambda x: cast(x, self.k), asarr(val), k=self.k).a
        else:
            if isinstance(num(val), C) and self.k in "bif":
                raise TypeError("can't convert complex to a real array element")
            if self.k in "if" and isinstance(val, float) and val != val and self.k == "i":
                raise ValueError("cannot convert float NaN to integer")
            v = cast(val, self.k)
        if mode == "sym":
            _set_sym(self, key, v)
        elif mode == "mask":
            _set_mask(self, key, v)
        else:
            if isinstance(v, np.ndarray):
                if np.shares_memory(v, self.a):
                    v = v.copy()
                self.a[key] = v
            elif isinstance(self.a[key], np.ndarray):
                w = np.empty((), dtype=object)
                w[()] = v
                self.a[key] = w
            else:
                self.a[key] = v

    # ---------------------------------------------------------- operators

    def __add__(self, o): return MODULE.add(self, o)
    def __radd__(self, o): return MODULE.add(o, self)
    def __sub__(self, o): return MODULE.subtract(self, o)
    def __rsub__(self, o): return MODULE.subtract(o, self)
    def __mul__(self, o):
        if hasattr(o, "_is_spmat"):
            return NotImplemented
        return MODULE.multiply(self, o)
    def __rmul__(self, o): return MODULE.multiply(o, self)
    def __truediv__(self, o): return MODULE.true_divide(self, o)
    def __rtruediv__(self, o): return MODULE.true_divide(o, self)
    def __floordiv__(self, o): return MODULE.floor_divide(self, o)
    def __rfloordiv__(self, o): return MODULE.floor_divide(o, self)
    def __mod__(self, o): return MODULE.mod(self, o)
    def __rmod__(self, o): return MODULE.mod(o, self)
    def __pow__(self, o): return MODULE.power(self, o)
    def __rpow__(self, o): return MODULE.power(o, self)
    def __neg__(self): return MODULE.negative(self)
    def __pos__(self): return self.copy()
    def __abs__(self): return MODULE.absolute(self)
    def __invert__(self): return MODULE.invert(self)
    def __and__(self, o): return MODULE.bitwise_and(self, o)
    def __rand__(self, o): return MODULE.bitwise_and(o, self)
    def __or__(self, o): return MODULE.bitwise_or(self, o)
    def __ror__(self, o): return MODULE.bitwise_or(o, self)
    def __xor__(self, o): return MODULE.bitwise_xor(self, o)
    def __rxor__(self, o): return MODULE.bitwise_xor(o, self)
    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return _map(lambda x: False, self, k="b")
        return MODULE.equal(self, o)
    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return _map(lambda x: True, self, k="b")
        return MODULE.not_equal(self, o)
    def __lt__(self, o): return MODULE.less(self, o)
    def __le__(self, o): return MODULE.less_equal(self, o)
    def __gt__(self, o): return MODULE.greater(self, o)
    def __ge__(self, o): return MODULE.greater_equal(self, o)
    def __matmul__(self, o):
        if hasattr(o, "_is_spmat"):
            return NotImplemented
        return MODULE.matmul(self, o)
    def __rmatmul__(self, o): return MODULE.matmul(o, self)

    def _inplace(self, r):
        if isinstance(r, Arr) and r.a.shape != self.a.shape:
            raise ValueError("non-broadcastable output operand")
        if isinstance(r, Arr) and _ORDER[r.k] > _ORDER[self.k]:
            raise TypeError("Cannot cast ufunc output from kind %s to kind %s" % (r.k, self.k))
        self[...] = r
        return self

    def __iadd__(self, o): return self._inplace(self+o)
    def __isub__(self, o): return self._inplace(self-o)
    def __imul__(self, o): return self._inplace(self*o)
    def __itruediv__(self, o): return self._inplace(self/o)
    def __ifloordiv__(self, o): return self._inplace(self//o)
    def __imod__(self, o): return self._inplace(self % o)
    def __ipow__(self, o): return self._inplace(self**o)
    def __iand__(self, o): return self._inplace(self & o)
    def __ior__(self, o): return self._inplace(self | o)
    def __ixor__(self, o): return self._inplace(self ^ o)

    # ---------------------------------------------------------- methods

    def copy(self, order="C"): return Arr(self.a.copy(), self.k)

    def astype(self, dt, copy=True, **_):
        k = kind_of_dtype(dt)
        if k == self.k:
            return self.copy() if copy else self
        return _map(lambda x: cast(x, k), self, k=k)

    def item(self, *args):
        if args:
            return self.a.item(*args)
        if self.a.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.a.reshape(-1)[0]

    def tolist(self):
        return self.a.tolist()

    def flatten(self, order="C"): return Arr(self.a.flatten(order=order), self.k)
    def ravel(self, order="C"): return Arr(self.a.ravel(order=order), self.k)

    def reshape(self, *shape, order="C", **_):
        if len(shape) == 1:
            shape = shape[0]
        return Arr(self.a.reshape(_cshape(shape), order=order), self.k)

    def transpose(self, *axes): return Arr(self.a.transpose(*axes), self.k)
    def swapaxes(self, i, j): return Arr(self.a.swapaxes(i, j), self.k)
    def squeeze(self, axis=None): return Arr(self.a.squeeze(axis=axis), self.k)
    def diagonal(self, *a, **k): return Arr(self.a.diagonal(*a, **k), self.k)
    def repeat(self, *a, **k): return MODULE.repeat(self, *a, **k)
    def take(self, *a, **k): return MODULE.take(self, *a, **k)
    def conj(self): return MODULE.conj(self)
    def conjugate(self): return MODULE.conj(self)
    def sum(self, *a, **k): return MODULE.sum(self, *a, **k)
    def prod(self, *a, **k): return MODULE.prod(self, *a, **k)
    def cumsum(self, *a, **k): return MODULE.cumsum(self, *a, **k)
    def mean(self, *a, **k): return MODULE.mean(self, *a, **k)
    def max(self, *a, **k): return MODULE.max(self, *a, **k)
    def min(self, *a, **k): return MODULE.min(self, *a, **k)
    def ptp(self, *a, **k): return MODULE.max(self, *a, **k)-MODULE.min(self, *a, **k)
    def argmax(self, *a, **k): return MODULE.argmax(self, *a, **k)
    def argmin(self, *a, **k): return MODULE.argmin(self, *a, **k)
    def argsort(self, *a, **k): return MODULE.argsort(self, *a, **k)
    def all(self, *a, **k): return MODULE.all(self, *a, **k)
    def any(self, *a, **k): return MODULE.any(self, *a, **k)
    def nonzero(self): return MODULE.nonzero(self)
    def dot(self, o): return MODULE.dot(self, o)
    def round(self, n=0, **k): return MODULE.round(self, n)
    def clip(self, *a, **k): return MODULE.clip(self, *a, **k)
    def searchsorted(self, *a, **k): return MODULE.searchsorted(self, *a, **k)
    def trace(self, *a, **k): return MODULE.trace(self, *a, **k)
    def fill(self, v): self[...] = v
    def setflags(self, *a, **k): pass
    def view(self, *a, **k):
        if (a or k) and kind_of_dtype((a or list(k.values()))[0]) != self.k:
            raise Unsupported("view with another dtype")
        return Arr(self.a.view(), self.k)

    def sort(self, axis=-1, **k):
        self.a[...] = MODULE.sort(self, axis=axis).a


def _cshape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(x) for x in s)
    if isinstance(s, Arr):
        return tuple(int(x) for x in s.a.reshape(-1))
    return int(s)


# ---------------------------------------------------------------- helpers

def _frompy(f, nin):
    return np.frompyfunc(f, nin, 1)


def _wrap(r, k=None):
    if isinstance(r, np.ndarray):
        if r.dtype != object:
            return asarr(r)
        return Arr(r, k if k is not None else _scan_kind(r))
    if isinstance(r, np.generic):
        return r.item() if r.dtype.kind in "bi" else num(r)
    return r


def _map(f, x, k=None):
    x = asarr(x)
    out = np.empty(x.a.shape, dtype=object)
    src = x.a.reshape(-1)
    dst = out.reshape(-1)
    for i in range(src.size):
        dst[i] = f(src[i])
    return Arr(out, k if k is not None else _scan_kind(out))


def _bc(f, *xs, k=None):
    """Broadcast an elementwise scalar function (scalar result when all the inputs are scalars)."""
    arrs = [asarr(x).a for x in xs]
    if builtins.all(a.ndim == 0 for a in arrs):
        r = f(*[a[()] for a in arrs])
        if builtins.any(isinstance(x, Arr) for x in xs):
            return r
        return r
    b = np.broadcast_arrays(*arrs)
    shape = b[0].shape
    out = np.empty(shape, dtype=object)
    dst = out.reshape(-1)
    flats = [x.reshape(-1) for x in b]
    for i in range(dst.size):
        dst[i] = f(*[x[i] for x in flats])
    return Arr(out, k if k is not None else _scan_kind(out))


def _elem(x):
    """Normalise an element of an array."""
    if isinstance(x, (bool, SB, S, C)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, Arr) and x.a.ndim == 0:
        return x.a[()]
    n = num(x)
    return x if n is None else n


def asarr(x, k=None):
    if isinstance(x, Arr):
        return x if k is None or x.k == k else x.astype(VDType(k))
    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, dtype=object)
        _fill(out, [_elem(v) for v in x.reshape(-1).tolist()]) if x.size else None
        kk = {"u": "i", "U": "O", "S": "O"}.get(x.dtype.kind, x.dtype.kind)
        if kk not in "bifcO":
            raise Unsupported("dtype %s" % x.dtype)
        if kk == "O":
            kk = _scan_kind(out) if x.size else "O"
        r = Arr(out, kk)
    elif hasattr(x, "_is_spmat"):
        raise Unsupported("sparse matrix used as an array")
    elif isinstance(x, (list, tuple)):
        r = _from_nested(x)
    elif isinstance(x, range):
        r = _from_nested(list(x))
    elif isinstance(x, types.GeneratorType):
        raise Unsupported("array of a generator")
    elif hasattr(x, "__symarray__"):
        r = asarr(x.__symarray__())
    else:
        out = np.empty((), dtype=object)
        out[()] = _elem(x)
        r = Arr(out, "f" if isinstance(x, (float, Fraction)) else "c" if isinstance(x, complex) else sc.kind(out[()]))
    return r if k is None or r.k == k else r.astype(VDType(k))


def _from_nested(x):
    def shape_of(v):
        if isinstance(v, Arr):
            return v.a.shape
        if isinstance(v, np.ndarray):
            return v.shape
        if isinstance(v, (list, tuple, range)):
            if len(v) == 0:
                return (0,)
            shs = [shape_of(w) for w in v]
            if builtins.any(s != shs[0] for s in shs):
                raise ValueError("setting an array element with a sequence. inhomogeneous shape")
            return (len(v),)+shs[0]
        return ()
    shape = shape_of(x)
    out = []
    kinds = []

    def rec(v):
        if isinstance(v, (Arr, np.ndarray)):
            w = asarr(v)
            kinds.append(w.k)
            out.extend(w.a.reshape(-1).tolist() if False else list(w.a.reshape(-1)))
        elif isinstance(v, (list, tuple, range)):
            for w in v:
                rec(w)
        else:
            e = _elem(v)
            kinds.append("f" if isinstance(v, (float, Fraction)) else "c" if isinstance(v, complex) else sc.kind(e))
            out.append(e)
    rec(x)
    k = _max_kind(*kinds) if kinds else "f"
    a = np.empty(len(out), dtype=object)
    for (i, v) in enumerate(out):
        a[i] = v
    r = Arr(a.reshape(shape), k)
    if k == "c":
        r = _map(lambda v: cast(v, "c"), r, k="c")
    return r


def is_conc_arr(x):
    for v in x.a.flat:
        if not sc.is_conc(v):
            return False
    return True


def _py(v, k):
    if k == "b":
        return bool(v)
    if k == "i":
        return int(v)
    if k == "f":
        return float(v)
    if k == "c":
        if isinstance(v, C):
            return complex(float(v.re), float(v.im))
        return complex(v)
    return v


def native(x):
    """Native array of a concrete array."""
    k = x.k
    out = np.empty(x.a.shape, dtype=_NATIVE[k])
    if x.a.size:
        o = out.reshape(-1)
        for (i, v) in enumerate(x.a.reshape(-1)):
            o[i] = _py(v, k)
        out = o.reshape(x.a.shape)
    return out


# ---------------------------------------------------------------- indexing

def _key(key, shape, read, val=None):
    """Normalise an index. Modes: plain (native index), mask (symbolic mask), sym (symbolic integers)."""
    comps = key if isinstance(key, tuple) else (key,)
    out = []
    symb = False
    for c in comps:
        if isinstance(c, list):
            c = asarr(c)
            if c.a.size == 0:
                c = Arr(c.a, "i")
        elif isinstance(c, np.ndarray):
            out.append(c)
            continue
        if isinstance(c, Arr):
            if c.k == "b":
                if is_conc_arr(c):
                    out.append(native(c))
                else:
                    if (not read) and len(comps) == 1 and c.a.shape == shape and not isinstance(val, (Arr, np.ndarray, list, tuple)):
                        return "mask", c
                    m = np.empty(c.a.shape, dtype=bool)
                    mf = m.reshape(-1)
                    for (i, v) in enumerate(c.a.reshape(-1)):
                        mf[i] = bool(v)
                    out.append(mf.reshape(c.a.shape))
            elif c.k == "i":
                if is_conc_arr(c):
                    out.append(native(c))
                else:
                    symb = True
                    out.append(c)
            elif c.k == "O":
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            else:
                if c.a.size == 0 and False:
                    out.append(np.zeros(c.a.shape, dtype=int))
                else:
                    raise IndexError("arrays used as indices must be of integer (or boolean) type")
        elif isinstance(c, S):
            symb = True
            out.append(c)
        elif isinstance(c, SB):
            out.append(bool(c))
        elif isinstance(c, slice):
            out.append(slice(_cint(c.start), _cint(c.stop), _cint(c.step)))
        elif isinstance(c, (Fraction, float)):
            raise IndexError("only integers, slices, ellipsis and arrays are valid indices")
        else:
            out.append(c)
    if not symb:
        return "plain", tuple(out) if isinstance(key, tuple) else out[0]
    ok = builtins.all(isinstance(c, (S, Arr, np.ndarray, int)) and not isinstance(c, bool)
                      and not (isinstance(c, np.ndarray) and c.dtype == bool) for c in out)
    if ok:
        return "sym", [asarr(c) for c in out]
    # mixed index: concretise the symbolic integers (fork)
    res = []
    for c in out:
        if isinstance(c, S):
            res.append(c.__index__())
        elif isinstance(c, Arr):
            m = np.empty(c.a.shape, dtype=np.int64)
            mf = m.reshape(-1)
            for (i, v) in enumerate(c.a.reshape(-1)):
                mf[i] = v.__index__()
            res.append(m)
        else:
            res.append(c)
    return "plain", tuple(res) if isinstance(key, tuple) else res[0]


def _cint(x):
    if x is None:
        return None
    return x.__index__()


def _sym_cands(arr_shape, comps):
    """For each output position: list of (index tuple, condition)."""
    b = np.broadcast_arrays(*[c.a for c in comps])
    shape = b[0].shape
    flats = [x.reshape(-1) for x in b]
    res = []
    for p in range(flats[0].size if shape else 1):
        per = []
        for (d, f) in enumerate(flats):
            v = f[p]
            n = arr_shape[d]
            if sc.is_conc(v):
                v = int(v)
                if not -n <= v < n:
                    raise IndexError("index %d is out of bounds for axis %d with size %d" % (v, d, n))
                per.append([(v % n, True)])
            else:
                inb = sc.b_and(sc.less_equal(-n, v), sc.less(v, n))
                if not bool(inb):
                    raise IndexError("index is out of bounds for axis %d with size %d" % (d, n))
                lst = []
                neg = bool(sc.less(v, 0)) if not eng.cur().entails(sc.zb(sc.less_equal(0, v))) else False
                for j in range(n):
                    cnd = sc.eq(v, j-n if neg else j)
                    if cnd is not False:
                        lst.append((j, cnd))
                per.append(lst)
        cands = []
        for combo in itertools.product(*per):
            cnd = sc.b_all([c for (_, c) in combo])
            if cnd is not False:
                cands.append((tuple(j for (j, _) in combo), cnd))
        res.append(cands)
    return shape, res


def _get_sym(x, comps):
    nd = len(comps)
    tail = x.a.shape[nd:]
    (shape, res) = _sym_cands(x.a.shape, comps)
    rows = []
    for cands in res:
        if not cands:
            raise eng.Infeasible()
        (idx, _) = cands[-1]
        cur = x.a[idx]
        for (idx, cnd) in reversed(cands[:-1]):
            v = x.a[idx]
            if tail:
                tmp = np.empty(tail, dtype=object)
                tf = tmp.reshape(-1)
                for (q, (p1, p2)) in enumerate(zip(v.reshape(-1), np.asarray(cur, dtype=object).reshape(-1))):
                    tf[q] = sc.ite(cnd, p1, p2)
                cur = tmp
            else:
                cur = sc.ite(cnd, v, cur)
        rows.append(cur)
    if shape == () and not tail:
        return rows[0]
    out = np.empty((len(rows),)+tail, dtype=object)
    for (i, r) in enumerate(rows):
        out[i] = r
    return Arr(out.reshape(shape+tail), x.k)


def _set_sym(x, comps, v):
    nd = len(comps)
    tail = x.a.shape[nd:]
    (shape, res) = _sym_cands(x.a.shape, comps)
    if isinstance(v, np.ndarray):
        vv = np.broadcast_to(v, shape+tail).reshape((len(res),)+tail)
    else:
        vv = _obj((len(res),)+tail, 0)
        fl = vv.reshape(-1)
        for i in range(fl.size):
            fl[i] = v
    for (p, cands) in enumerate(res):
        for (idx, cnd) in cands:
            if tail:
                dst = x.a[idx]
                for q in np.ndindex(*tail):
                    dst[q] = sc.ite(cnd, vv[p][q], dst[q])
            else:
                x.a[idx] = sc.ite(cnd, vv[p], x.a[idx])


def _set_mask(x, mask, v):
    for idx in np.ndindex(*x.a.shape):
        x.a[idx] = sc.ite(mask.a[idx], v, x.a[idx])


# ---------------------------------------------------------------- ufuncs

class UFunc:
    def __init__(self, name, f, nin, kind=None, ident=None):
        self.__name__ = name
        self.f = f
        self.nin = nin
        self.kind = kind
        self.identity = ident

    def _k(self, arrs):
        if callable(self.kind):
            return self.kind(*[a.k for a in arrs])
        return self.kind

    def __call__(self, *args, out=None, where=True, dtype=None, casting=None, **kw):
        args = list(args)
        if len(args) > self.nin:
            out = args[self.nin]
            args = args[:self.nin]
        for x in args:
            if hasattr(x, "_is_spmat"):
                return x._ufunc(self, args)
        arrs = [asarr(x) for x in args]
        k = self._k(arrs)
        r = _bc(self.f, *arrs, k=k)
        if dtype is not None:
            r = r.astype(dtype) if isinstance(r, Arr) else cast(r, kind_of_dtype(dtype))
        if isinstance(out, tuple):
            out = out[0]
        if where is not True:
            if out is None:
                raise Unsupported("ufunc where without out")
            r = _bc(lambda c, n, o: sc.ite(c, n, o), where, r, out)
        if out is not None:
            out[...] = r
            return out
        return r

    def reduce(self, x, axis=0, keepdims=False, initial=None, dtype=None, out=None, where=True):
        x = asarr(x)
        if where is not True:
            raise Unsupported("reduce where")
        k = self._k([x, x])
        init = self.identity if initial is None else initial

        def red(lst):
            if not lst:
                if init is None:
                    raise ValueError("zero-size array to reduction operation %s which has no identity" % self.__name__)
                return init
            r = lst[0] if initial is None else self.f(initial, lst[0])
            for v in lst[1:]:
                r = self.f(r, v)
            return r
        r = _reduce_axis(x, axis, keepdims, red, k)
        if out is not None:
            out[...] = r
            return out
        return r

    def accumulate(self, x, axis=0):
        x = asarr(x)
        out = x.a.copy()
        m = np.moveaxis(out, axis, 0)
        for i in range(1, m.shape[0]):
            m[i] = _bc(self.f, Arr(np.asarray(m[i-1], dtype=object), x.k), Arr(np.asarray(m[i], dtype=object), x.k)).a \
                if m[i].__class__ is np.ndarray else self.f(m[i-1], m[i])
        return Arr(out, self._k([x, x]) or _scan_kind(out))

    def outer(self, x, y):
        x = asarr(x)
        y = asarr(y)
        return self(Arr(x.a.reshape(x.a.shape+(1,)*y.a.ndim), x.k), y)

    def at(self, x, idx, v=None):
        if self.nin == 1:
            raise Unsupported("unary ufunc.at")
        (mode, key) = _key(idx, x.a.shape, True)
        if mode == "sym":
            comps = key
            (shape, res) = _sym_cands(x.a.shape, comps)
            vv = np.broadcast_to(asarr(v).a, shape).reshape(-1)
            for (p, cands) in enumerate(res):
                for (ii, cnd) in cands:
                    x.a[ii] = sc.ite(cnd, cast(self.f(x.a[ii], vv[p]), x.k), x.a[ii])
            return
        sel = np.arange(x.a.size).reshape(x.a.shape)[key]
        vv = np.broadcast_to(asarr(v).a, sel.shape).reshape(-1)
        flat = x.a.reshape(-1)
        if x.a.size and not np.shares_memory(flat, x.a):
            raise Unsupported("ufunc.at on a non-contiguous array")
        for (p, i) in enumerate(np.asarray(sel).reshape(-1)):
            flat[i] = cast(self.f(flat[i], vv[p]), x.k)


def _reduce_axis(x, axis, keepdims, red, k):
    a = x.a
    if axis is None:
        r = red(list(a.reshape(-1)))
        if keepdims:
            out = np.empty((1,)*a.ndim, dtype=object)
            out[...] = r
            return Arr(out, k or _scan_kind(out))
        return r
    if isinstance(axis, (tuple, list)):
        axes = tuple(ax % a.ndim for ax in axis)
    else:
        ax = axis.__index__()
        if not -a.ndim <= ax < a.ndim:
            raise np.exceptions.AxisError(ax, a.ndim)
        axes = (ax % a.ndim,)
    rest = [d for d in range(a.ndim) if d not in axes]
    m = a.transpose(rest+list(axes))
    shp = tuple(a.shape[d] for d in rest)
    cnt = int(np.prod([a.shape[d] for d in axes]))
    m = m.reshape((int(np.prod(shp)), cnt))
    out = np.empty(m.shape[0], dtype=object)
    for i in range(m.shape[0]):
        out[i] = red(list(m[i]))
    if not rest and not keepdims:
        return out[0]
    if keepdims:
        shp = tuple(1 if d in axes else a.shape[d] for d in range(a.ndim))
    out = out.reshape(shp)
    return Arr(out, k or _scan_kind(out))


def _arith(ka, kb):
    k = _max_kind(ka, kb)
    return "i" if k == "b" else k


def _add_kind(ka, kb):
    return _max_kind(ka, kb)


def _add(a, b):
    if sc.is_bool(a) and sc.is_bool(b):
        return sc.b_or(a, b)
    return sc.add(a, b)


def _mul(a, b):
    if sc.is_bool(a) and sc.is_bool(b):
        return sc.b_and(a, b)
    return sc.mul(a, b)


def _div_kind(ka, kb):
    k = _max_kind(ka, kb)
    return "f" if k in "bi" else k


def _flt(k):
    return "f" if k in "bi" else k


def _band(a, b):
    if sc.is_bool(a) and sc.is_bool(b):
        return sc.b_and(a, b)
    if sc.is_conc(a) and sc.is_conc(b):
        return a & b
    raise Unsupported("bitwise operation on symbolic integers")


def _bor(a, b):
    if sc.is_bool(a) and sc.is_bool(b):
        return sc.b_or(a, b)
    if sc.is_conc(a) and sc.is_conc(b):
        return a | b
    raise Unsupported("bitwise operation on symbolic integers")


def _bxor(a, b):
    if sc.is_bool(a) and sc.is_bool(b):
        return sc.b_not(sc.b_eq(a, b))
    if sc.is_conc(a) and sc.is_conc(b):
        return a ^ b
    raise Unsupported("bitwise operation on symbolic integers")


def _inv(a):
    if sc.is_bool(a):
        return sc.b_not(a)
    return -a-1


def _isnan(x):
    if isinstance(x, C):
        return _isnan(x.re) or _isnan(x.im)
    return isinstance(x, float) and x != x


def _isinf(x):
    if isinstance(x, C):
        return _isinf(x.re) or _isinf(x.im)
    return isinstance(x, float) and x in (INF, -INF)


def _fmax(a, b):
    if _isnan(a):
        return b
    if _isnan(b):
        return a
    return sc.maximum(a, b)


def _fmin(a, b):
    if _isnan(a):
        return b
    if _isnan(b):
        return a
    return sc.minimum(a, b)


def _logb(base):
    def f(x):
        x = num(x)
        if sc.is_conc(x) and not isinstance(x, C):
            import math
            if x <= 0:
                return -INF if x == 0 else NAN
            v = math.log10(float(x)) if base == 10 else math.log2(float(x))
            return num(v)
        r = sc.uf("log%d" % base, x)
        eng.cur().path_state.setdefault("log%d" % base, []).append((r, x))
        return r
    return f


def _conj(x):
    x = num(x)
    return x.conjugate() if isinstance(x, C) else x


def _maxk(a, b):
    return _max_kind(a, b)


def _same_k(k):
    return k


def _abs_k(k):
    return {"c": "f"}.get(k, k)


def _atan2(y, x):
    raise Unsupported("arctan2")


_UFUNCS = {}


def _u(names, f, nin, kind=None, ident=None):
    for n in names.split():
        _UFUNCS[n] = UFunc(n, f, nin, kind, ident)


_u("add", _add, 2, _add_kind, 0)
_u("subtract", sc.sub, 2, _arith)
_u("multiply", _mul, 2, _add_kind, 1)
_u("divide true_divide", sc.div, 2, _div_kind)
_u("floor_divide", sc.floordiv, 2, _arith)
_u("mod remainder fmod", sc.mod, 2, _arith)
_u("power float_power pow", sc.power, 2, _arith)
_u("negative", lambda x: sc.mul(-1, x), 1, _same_k)
_u("positive", lambda x: x, 1, _same_k)
_u("absolute abs fabs", lambda x: x if sc.is_bool(x) else sc.absolute(x), 1, _abs_k)
_u("conj conjugate", _conj, 1, _same_k)
_u("sqrt", sc.sqrt, 1, _flt)
_u("square", lambda x: sc.mul(x, x), 1, _same_k)
_u("reciprocal", lambda x: sc.div(1, x), 1, _flt)
_u("exp", sc.exp, 1, _flt)
_u("log", sc.log, 1, _flt)
_u("log10", _logb(10), 1, _flt)
_u("log2", _logb(2), 1, _flt)
_u("sin", sc.sin, 1, _flt)
_u("cos", sc.cos, 1, _flt)
_u("arctan atan", sc.arctan, 1, _flt)
_u("arctan2 atan2", _atan2, 2, _div_kind)
_u("hypot", lambda x, y: sc.sqrt(sc.add(sc.mul(x, x), sc.mul(y, y))), 2, _div_kind)
_u("sign", sc.sign, 1, _same_k)
_u("floor", sc.floor, 1, _same_k)
_u("ceil", sc.ceil, 1, _same_k)
_u("trunc fix", sc.trunc, 1, _same_k)
_u("rint", sc.rint, 1, _flt)
_u("maximum", sc.maximum, 2, _maxk)
_u("minimum", sc.minimum, 2, _maxk)
_u("fmax", _fmax, 2, _maxk)
_u("fmin", _fmin, 2, _maxk)
_u("equal", sc.eq, 2, "b")
_u("not_equal", lambda a, b: sc.b_not(sc.eq(a, b)), 2, "b")
_u("less", sc.less, 2, "b")
_u("less_equal", sc.less_equal, 2, "b")
_u("greater", sc.greater, 2, "b")
_u("greater_equal", sc.greater_equal, 2, "b")
_u("logical_and", sc.b_and, 2, "b", True)
_u("logical_or", sc.b_or, 2, "b", False)
_u("logical_xor", lambda a, b: sc.b_not(sc.b_eq(a, b)), 2, "b", False)
_u("logical_not", sc.b_not, 1, "b")
_u("bitwise_and", _band, 2, _maxk)
_u("bitwise_or", _bor, 2, _maxk)
_u("bitwise_xor", _bxor, 2, _maxk)
_u("invert bitwise_not", _inv, 1, _same_k)
_u("isnan", _isnan, 1, "b")
_u("isinf", _isinf, 1, "b")
_u("isfinite", lambda x: not (_isnan(x) or _isinf(x)), 1, "b")


# ---------------------------------------------------------------- functions

F = {}


def fct(*names):
    def deco(f):
        for n in (names or (f.__name__,)):
            F[n.rstrip("_")] = f
        return f
    return deco


def _mkfull(shape, v, k):
    a = np.empty(_cshape(shape), dtype=object)
    fl = a.reshape(-1)
    v = cast(v, k)
    for i in range(fl.size):
        fl[i] = v
    return Arr(a, k)


_UNINIT = itertools.count()


@fct()
def zeros(shape, dtype=None, order="C", **_):
    return _mkfull(shape, 0, kind_of_dtype(dtype) or "f")


@fct()
def ones(shape, dtype=None, order="C", **_):
    return _mkfull(shape, 1, kind_of_dtype(dtype) or "f")


@fct("empty", "ndarray_")
def empty(shape, dtype=None, order="C", **_):
    """Uninitialised memory: an arbitrary (fresh symbolic) value for each element."""
    k = kind_of_dtype(dtype) or "f"
    a = np.empty(_cshape(shape), dtype=object)
    fl = a.reshape(-1)
    for i in range(fl.size):
        fl[i] = _uninit(k)
    return Arr(a, k)


def _uninit(k):
    e = eng.ENGINE
    if e is None or k == "O":
        return cast(0, k) if k != "O" else None
    n = e.fresh_count
    e.fresh_count = n+1
    if k == "b":
        return SB(z3.Bool("uninit!%d" % n))
    if k == "i":
        return sc.from_z3(z3.Int("uninit!%d" % n))
    if k == "c":
        return C(sc.from_z3(z3.Real("uninit!%dr" % n)), sc.from_z3(z3.Real("uninit!%di" % n)))
    return sc.from_z3(z3.Real("uninit!%d" % n))


@fct()
def full(shape, fill_value, dtype=None, order="C", **_):
    k = kind_of_dtype(dtype)
    if isinstance(fill_value, (Arr, list, tuple, np.ndarray)):
        v = asarr(fill_value, k)
        return Arr(np.broadcast_to(v.a, _cshape(shape)).copy(), v.k)
    return _mkfull(shape, fill_value, k or sc.kind(_elem(fill_value)))


def _like(x, shape):
    x = asarr(x)
    return x, (x.a.shape if shape is None else shape)


@fct()
def zeros_like(x, dtype=None, shape=None, **_):
    (x, s) = _like(x, shape)
    return zeros(s, dtype=dtype or x.dtype)


@fct()
def ones_like(x, dtype=None, shape=None, **_):
    (x, s) = _like(x, shape)
    return ones(s, dtype=dtype or x.dtype)


@fct()
def empty_like(x, dtype=None, shape=None, **_):
    (x, s) = _like(x, shape)
    return empty(s, dtype=dtype or x.dtype)


@fct()
def full_like(x, v, dtype=None, shape=None, **_):
    (x, s) = _like(x, shape)
    return full(s, v, dtype=dtype or x.dtype)


@fct()
def array(x, dtype=None, copy=True, ndmin=0, **_):
    if dtype is not None and kind_of_dtype(dtype) == "O" and not isinstance(x, Arr):
        return np.array(x, dtype=dtype)
    r = asarr(x)
    if r.k == "O" and builtins.any(isinstance(v, str) for v in r.a.flat):
        return np.array(x)
    k = kind_of_dtype(dtype)
    if k is not None and k != r.k:
        r = r.astype(VDType(k))
    elif r is x:
        r = r.copy()
    if r.a.ndim < ndmin:
        r = Arr(r.a.reshape((1,)*(ndmin-r.a.ndim)+r.a.shape), r.k)
    return r


@fct("asarray", "ascontiguousarray", "asfortranarray", "asanyarray", "asarray_chkfinite")
def asarray(x, dtype=None, **_):
    if isinstance(x, Arr) and (dtype is None or kind_of_dtype(dtype) == x.k):
        return x
    return array(x, dtype=dtype)


@fct()
def copy(x, **_):
    return asarr(x).copy()


@fct()
def arange(*args, dtype=None, **_):
    args = [_elem(a) for a in args]
    (lo, hi, st) = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else 1)
    k = kind_of_dtype(dtype)
    if builtins.all(sc.kind(v) == "i" for v in (lo, hi, st)):
        if not (sc.is_conc(lo) and sc.is_conc(st)):
            # fixed length with a symbolic start
            d = sc.sub(hi, lo)
            n = d if sc.is_conc(d) else None
            if n is not None and sc.is_conc(st):
                cnt = len(range(0, n, st))
                return from_list([cast(sc.add(lo, i*st), k or "i") for i in range(cnt)], (cnt,), k or "i")
        r = range(lo.__index__(), hi.__index__(), st.__index__())
        return from_list([cast(v, k or "i") for v in r], (len(r),), k or "i")
    out = []
    if not sc.is_conc(st):
        n = sc.ceil(sc.div(sc.sub(hi, lo), st))
    else:
        n = sc.ceil(sc.div(sc.sub(hi, lo), st))
    n = builtins.max(0, n.__index__() if isinstance(n, S) else int(n))
    for i in range(n):
        out.append(cast(sc.add(lo, sc.mul(i, st)), k or "f"))
    return from_list(out, (len(out),), k or "f")


@fct()
def linspace(a, b, num=50, endpoint=True, dtype=None, retstep=False, **_):
    n = int(num)
    a = _elem(a)
    b = _elem(b)
    div = n-1 if endpoint else n
    st = sc.div(sc.sub(b, a), div) if div else NAN
    r = from_list([sc.add(a, sc.mul(i, st)) if i else sc.num(a) for i in range(n)], (n,), "f")
    if endpoint and n > 1:
        r.a[-1] = sc.num(b)
    if dtype is not None:
        r = r.astype(dtype)
    return (r, st) if retstep else r


@fct()
def geomspace(a, b, num=50, endpoint=True, dtype=None, **_):
    """The end points, and a monotonic sequence in between."""
    n = int(num)
    (a, b) = (sc.num(_elem(a)), sc.num(_elem(b)))
    if not endpoint or isinstance(a, C) or isinstance(b, C):
        raise Unsupported("options of geomspace")
    e = eng.cur()
    mid = []
    for _ in range(n-2):
        k = e.path_state["geomspace"] = e.path_state.get("geomspace", 0)+1
        mid.append(z3.Real("geomspace!%d" % k))
    if mid:
        (za, zb) = (sc.to_z3(a), sc.to_z3(b))
        seq = [sc.real_z3(a)]+mid+[sc.real_z3(b)]
        up = z3.And(*[p < q for (p, q) in zip(seq, seq[1:])])
        down = z3.And(*[p > q for (p, q) in zip(seq, seq[1:])])
        const = z3.And(*[p == q for (p, q) in zip(seq, seq[1:])])
        for v in mid:
            e.define(v)
        e.add(z3.Or(up, down, const))
    lst = [a]+[sc.from_z3(v) for v in mid]+[b]
    return from_list(lst[:n], (n,), "f")


@fct()
def logspace(a, b, num=50, endpoint=True, base=10.0, dtype=None, **_):
    return geomspace(_pow10(_elem(a), base), _pow10(_elem(b), base), num, endpoint)


def _pow10(x, base):
    """Power of a logarithm of the same base."""
    x = sc.num(x)
    e = eng.cur()
    for (r, v) in e.path_state.get("log%d" % base, []):
        if type(x) is S and type(r) is S and r.t == x.t:
            return v
    if type(x) is S:
        raise Unsupported("power of a symbolic exponent")
    return sc.num(float(base)**float(x))


@fct()
def eye(n, m=None, k=0, dtype=None, **_):
    return asarr(np.eye(int(n), None if m is None else int(m), k), kind_of_dtype(dtype) or "f")


@fct()
def identity(n, dtype=None):
    return eye(n, dtype=dtype)


def _struct(name):
    f = getattr(np, name)

    def g(*args, **kw):
        kinds = []

        def un(x):
            if isinstance(x, Arr):
                kinds.append(x.k)
                return x.a
            if isinstance(x, np.ndarray) and x.dtype != object:
                x = asarr(x)
                kinds.append(x.k)
                return x.a
            if isinstance(x, (list, tuple)) and builtins.any(isinstance(v, (Arr, np.ndarray, list, tuple)) for v in x):
                return type(x)(un(v) for v in x)
            return x

        def first(x):
            # arguments which are arrays in disguise
            if isinstance(x, (list, tuple)) and not builtins.any(isinstance(v, (Arr, np.ndarray, list, tuple)) for v in x):
                return asarr(x)
            if isinstance(x, (list, tuple)):
                return type(x)(first(v) if isinstance(v, (list, tuple)) else v for v in x)
            if isinstance(x, (S, C, SB, Fraction)):
                return asarr(x)
            return x
        args = list(args)
        if args and name not in ("block",):
            args[0] = first(args[0])
        args = [un(x) for x in args]
        kw = {k_: un(v) for (k_, v) in kw.items() if k_ != "dtype"}
        args = [_natidx(x) if i > 0 and name in _IDX_ARG else x for (i, x) in enumerate(args)]
        kw = {k_: _natidx(v) if isinstance(v, np.ndarray) else v for (k_, v) in kw.items()}
        r = f(*args, **kw)
        k = _max_kind(*kinds) if kinds else None

        def wr(v):
            if isinstance(v, np.ndarray) and v.dtype == object:
                if k == "c":
                    v = _map(lambda x: cast(x, "c"), Arr(v, "c"), k="c").a
                return Arr(v, k or _scan_kind(v))
            if isinstance(v, (list, tuple)):
                return type(v)(wr(w) for w in v)
            return _wrap(v)
        return wr(r)
    g.__name__ = name
    return g


_IDX_ARG = {"take", "repeat", "roll", "delete", "insert", "split", "array_split", "tile", "reshape", "transpose",
            "expand_dims", "broadcast_to", "moveaxis", "rot90", "swapaxes", "take_along_axis", "rollaxis"}


def _natidx(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.array([int(v) if not isinstance(v, bool) else v for v in x.reshape(-1)]).reshape(x.shape) if x.size \
            else np.zeros(x.shape, dtype=int)
    return x


for _n in ("concatenate stack vstack hstack dstack column_stack row_stack reshape ravel transpose flip fliplr flipud "
           "roll rot90 tile repeat moveaxis swapaxes rollaxis split array_split hsplit vsplit dsplit squeeze expand_dims "
           "broadcast_to broadcast_arrays diag diagonal diagflat append delete insert block meshgrid atleast_1d "
           "atleast_2d atleast_3d take_along_axis tril triu resize permute_dims matrix_transpose").split():
    if hasattr(np, _n):
        F[_n] = _struct(_n)


@fct()
def take(x, idx, axis=None, **_):
    x = asarr(x)
    if axis is None:
        return x.ravel()[idx]
    key = [slice(None)]*x.a.ndim
    key[axis] = idx
    return x[tuple(key)]


@fct()
def ix_(*args):
    out = []
    n = len(args)
    for (i, x) in enumerate(args):
        x = asarr(x)
        if x.k == "b":
            x = flatnonzero(x)
        out.append(x.reshape((1,)*i+(x.a.size,)+(1,)*(n-i-1)))
    return tuple(out)


F["ix_"] = ix_


@fct()
def indices(shape, dtype=int, **_):
    return asarr(np.indices(_cshape(shape)))


@fct("product_", "outer")
def outer(a, b):
    return _UFUNCS["multiply"].outer(asarr(a).ravel(), asarr(b).ravel())


def _objlin(name):
    f = getattr(np, name)

    def g(*args, **kw):
        arrs = []
        out = []
        for x in args:
            if isinstance(x, str):
                out.append(x)
            elif isinstance(x, (Arr, np.ndarray, list, tuple, S, C, SB, Fraction)):
                y = asarr(x)
                if y.k == "b":
                    y = y.astype(VDType("i"))
                arrs.append(y)
                out.append(y.a)
            else:
                out.append(x)
        kw = {k: v for (k, v) in kw.items() if k not in ("dtype", "optimize", "out")}
        for x in out:
            if hasattr(x, "_is_spmat"):
                raise Unsupported(name)
        if name == "einsum":
            kw["optimize"] = False
        r = f(*out, **kw)
        k = _max_kind(*[x.k for x in arrs])
        if isinstance(r, np.ndarray):
            if r.dtype != object:
                return asarr(r, k)
            # a sum without any term is returned as None/False by the object loops
            r = _map(lambda v: cast(0 if v is None or v is False else v, k if k == "c" else None), Arr(r, k), k=k).a
            return Arr(r, k)
        return 0 if r is None or r is False else r
    g.__name__ = name
    return g


for _n in "dot inner tensordot einsum kron trace vdot convolve".split():
    F[_n] = _objlin(_n)


@fct("matmul", "vecdot_")
def matmul(a, b, **_):
    if hasattr(a, "_is_spmat") or hasattr(b, "_is_spmat"):
        return a @ b
    a = asarr(a)
    b = asarr(b)
    if a.a.ndim > 2 or b.a.ndim > 2:
        return _objlin("matmul")(a, b)
    if a.a.ndim == 0 or b.a.ndim == 0:
        raise ValueError("matmul: scalar operand")
    va = a.a.ndim == 1
    vb = b.a.ndim == 1
    x = a.a.reshape(1, -1) if va else a.a
    y = b.a.reshape(-1, 1) if vb else b.a
    if x.shape[1] != y.shape[0]:
        raise ValueError("matmul: size mismatch %s %s" % (a.a.shape, b.a.shape))
    k = _max_kind(a.k, b.k)
    out = np.empty((x.shape[0], y.shape[1]), dtype=object)
    for i in range(x.shape[0]):
        for j in range(y.shape[1]):
            out[i, j] = cast(_dot(x[i], y[:, j]), k if k == "c" else None)
    if va and vb:
        return out[0, 0]
    if va:
        out = out[0]
    elif vb:
        out = out[:, 0]
    return Arr(out, k)


def _dot(p, q):
    r = 0
    for (u, v) in zip(p, q):
        if type(u) is int and u == 0 and not isinstance(v, float):
            continue
        if type(v) is int and v == 0 and not isinstance(u, float):
            continue
        r = sc.add(r, sc.mul(u, v))
    return r


@fct()
def cross(a, b, axis=-1, axisa=-1, axisb=-1, axisc=-1, **_):
    a = asarr(a)
    b = asarr(b)
    if axis != -1:
        (axisa, axisb, axisc) = (axis, axis, axis)
    x = Arr(np.moveaxis(a.a, axisa, -1), a.k)
    y = Arr(np.moveaxis(b.a, axisb, -1), b.k)
    if x.a.shape[-1] != 3 or y.a.shape[-1] != 3:
        raise Unsupported("cross product of 2D vectors")
    c = [x[..., 1]*y[..., 2]-x[..., 2]*y[..., 1],
         x[..., 2]*y[..., 0]-x[..., 0]*y[..., 2],
         x[..., 0]*y[..., 1]-x[..., 1]*y[..., 0]]
    r = F["stack"](c, axis=-1)
    return Arr(np.moveaxis(r.a, -1, axisc), r.k)


# reductions

@fct("sum")
def sum_(x, axis=None, dtype=None, keepdims=False, initial=None, where=True, out=None, **_):
    if hasattr(x, "_is_spmat"):
        return x.sum(axis=axis)
    x = asarr(x)
    if x.k == "b":
        x = x.astype(VDType("i"))
    if where is not True:
        x = F["where"](where, x, 0)
    k = x.k
    r = _reduce_axis(x, axis, keepdims, lambda lst: _sum(lst, initial, k), k)
    if dtype is not None:
        r = r.astype(dtype) if isinstance(r, Arr) else cast(r, kind_of_dtype(dtype))
    if out is not None:
        out[...] = r
        return out
    return r


def _sum(lst, initial=None, k=None):
    r = 0 if initial is None else initial
    for v in lst:
        r = sc.add(r, v)
    return cast(r, "c") if k == "c" else r


F["sum"] = sum_


@fct()
def nansum(x, axis=None, **kw):
    x = asarr(x)
    return sum_(_map(lambda v: 0 if _isnan(v) else v, x, k=x.k), axis=axis, **kw)


@fct("prod", "product")
def prod(x, axis=None, dtype=None, keepdims=False, initial=None, **_):
    x = asarr(x)
    if x.k == "b":
        x = x.astype(VDType("i"))

    def red(lst):
        r = 1
        for v in lst:
            r = sc.mul(r, v)
        return r
    return _reduce_axis(x, axis, keepdims, red, x.k)


@fct("cumsum", "cumulative_sum")
def cumsum(x, axis=None, dtype=None, **_):
    x = asarr(x)
    if x.k == "b":
        x = x.astype(VDType("i"))
    if axis is None:
        x = x.ravel()
        axis = 0
    out = x.a.copy()
    m = np.moveaxis(out, axis, 0)
    for i in range(1, m.shape[0]):
        for j in np.ndindex(*m.shape[1:]):
            m[(i,)+j] = sc.add(m[(i-1,)+j], m[(i,)+j])
    return Arr(out, x.k)


@fct()
def cumprod(x, axis=None, dtype=None, **_):
    x = asarr(x)
    if axis is None:
        x = x.ravel()
        axis = 0
    out = x.a.copy()
    m = np.moveaxis(out, axis, 0)
    for i in range(1, m.shape[0]):
        for j in np.ndindex(*m.shape[1:]):
            m[(i,)+j] = sc.mul(m[(i-1,)+j], m[(i,)+j])
    return Arr(out, x.k)


@fct()
def diff(x, n=1, axis=-1, prepend=None, append=None):
    x = asarr(x)
    if prepend is not None:
        x = F["concatenate"]((F["atleast_1d"](prepend), x), axis=axis)
    if append is not None:
        x = F["concatenate"]((x, F["atleast_1d"](append)), axis=axis)
    for _ in range(n):
        m = Arr(np.moveaxis(x.a, axis, 0), x.k)
        r = m[1:]-m[:-1] if x.k != "b" else m[1:] ^ m[:-1]
        x = Arr(np.moveaxis(r.a, 0, axis), r.k)
    return x


@fct()
def ediff1d(x, **_):
    return diff(asarr(x).ravel())


@fct()
def gradient(*a, **k):
    raise Unsupported("gradient")


@fct()
def mean(x, axis=None, keepdims=False, **_):
    x = asarr(x)
    s = sum_(x, axis=axis, keepdims=keepdims)
    n = x.a.size if axis is None else int(np.prod([x.a.shape[d] for d in (axis if isinstance(axis, tuple) else (axis,))]))
    if n == 0:
        return NAN if not isinstance(s, Arr) else full(s.shape, NAN)
    return s/n if isinstance(s, Arr) else sc.div(s, n)


@fct()
def average(x, axis=None, weights=None, **_):
    if weights is None:
        return mean(x, axis=axis)
    x = asarr(x)
    w = asarr(weights)
    if w.a.shape != x.a.shape and axis is not None:
        sh = [1]*x.a.ndim
        sh[axis] = -1
        w = w.reshape(tuple(sh))+zeros(x.a.shape, dtype=int)
    s = sum_(x*w, axis=axis)
    return _UFUNCS["divide"](s, sum_(w, axis=axis))


def _minmax(name, f, nanskip=False):
    def g(x, axis=None, keepdims=False, initial=None, out=None, where=True, default=None, **_):
        x = asarr(x)

        def red(lst):
            if nanskip:
                lst = [v for v in lst if not _isnan(v)]
                if not lst:
                    return NAN
            if initial is not None:
                lst = [initial]+lst
            if not lst:
                raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
            r = lst[0]
            for v in lst[1:]:
                r = f(r, v)
            return int(r) if isinstance(r, bool) and x.k != "b" else r
        return _reduce_axis(x, axis, keepdims, red, x.k)
    g.__name__ = name
    return g


def _bmax(a, b):
    return sc.b_or(a, b) if sc.is_bool(a) and sc.is_bool(b) else sc.maximum(a, b)


def _bmin(a, b):
    return sc.b_and(a, b) if sc.is_bool(a) and sc.is_bool(b) else sc.minimum(a, b)


F["max"] = F["amax"] = _minmax("maximum", _bmax)
F["min"] = F["amin"] = _minmax("minimum", _bmin)
F["nanmax"] = _minmax("fmax", _bmax, True)
F["nanmin"] = _minmax("fmin", _bmin, True)


@fct()
def ptp(x, axis=None, **_):
    return F["max"](x, axis=axis)-F["min"](x, axis=axis)


@fct("all", "alltrue")
def all_(x, axis=None, keepdims=False, where=True, **_):
    x = asarr(x)
    return _reduce_axis(x, axis, keepdims, sc.b_all, "b")


@fct("any", "sometrue")
def any_(x, axis=None, keepdims=False, where=True, **_):
    x = asarr(x)
    return _reduce_axis(x, axis, keepdims, sc.b_any, "b")


F["all"] = F["alltrue"] = all_
F["any"] = F["sometrue"] = any_


@fct()
def count_nonzero(x, axis=None, keepdims=False):
    x = asarr(x)

    def red(lst):
        r = 0
        for v in lst:
            r = sc.add(r, sc.ite(sc.truth(v), 1, 0))
        return r
    return _reduce_axis(x, axis, keepdims, red, "i")


def _arg(name, better):
    def g(x, axis=None, **_):
        x = asarr(x)

        def red(lst):
            if not lst:
                raise ValueError("attempt to get %s of an empty sequence" % name)
            best = 0
            for (i, v) in enumerate(lst):
                if i and bool(better(num(v), num(lst[best]))):
                    best = i
            return best
        return _reduce_axis(x, axis, False, red, "i")
    return g


F["argmax"] = _arg("argmax", lambda a, b: sc.less(b, a))
F["argmin"] = _arg("argmin", lambda a, b: sc.less(a, b))


# sorting and sets

def _argsort_list(lst):
    import functools

    def cmp(i, j):
        a = lst[i]
        b = lst[j]
        if isinstance(a, str) and isinstance(b, str):
            return (a > b)-(a < b)
        if _isnan(a) or _isnan(b):
            return (1 if _isnan(a) else 0)-(1 if _isnan(b) else 0)
        if bool(sc.less(a, b)):
            return -1
        if bool(sc.less(b, a)):
            return 1
        return 0
    return sorted(range(len(lst)), key=functools.cmp_to_key(cmp))


def _along(x, axis, f, k):
    x = asarr(x)
    if axis is None:
        x = x.ravel()
        axis = 0
    m = np.moveaxis(x.a, axis, -1)
    out = np.empty(m.shape, dtype=object)
    for j in np.ndindex(*m.shape[:-1]):
        r = f(list(m[j]))
        for (i, v) in enumerate(r):
            out[j+(i,)] = v
    return Arr(np.moveaxis(out, -1, axis), k or x.k)


@fct()
def argsort(x, axis=-1, **_):
    return _along(x, axis, _argsort_list, "i")


@fct()
def sort(x, axis=-1, **_):
    x = asarr(x)
    return _along(x, axis, lambda lst: [lst[i] for i in _argsort_list(lst)], x.k)


@fct()
def lexsort(keys, axis=-1):
    keys = [list(asarr(k).a.reshape(-1)) for k in keys]
    n = len(keys[0])
    order = list(range(n))
    for k in keys:
        sub = _argsort_list([k[i] for i in order])
        order = [order[i] for i in sub]
    return from_list(order, (n,), "i")


@fct()
def unique(x, return_index=False, return_inverse=False, return_counts=False, axis=None, **_):
    x = asarr(x)
    if axis is not None and x.a.ndim > 1:
        if is_conc_arr(x):
            r = np.unique(native(x), return_index, return_inverse, return_counts, axis=axis)
            return tuple(asarr(v) for v in r) if isinstance(r, tuple) else asarr(r)
        raise Unsupported("unique along an axis")
    lst = list(x.a.reshape(-1))
    order = _argsort_list(lst)
    vals = []
    first = []
    counts = []
    inv = [0]*len(lst)
    for i in order:
        if vals and bool(vals[-1] == lst[i] if isinstance(lst[i], str) else sc.eq(vals[-1], lst[i])):
            counts[-1] += 1
            first[-1] = builtins.min(first[-1], i)
        else:
            vals.append(lst[i])
            first.append(i)
            counts.append(1)
        inv[i] = len(vals)-1
    out = [from_list(vals, (len(vals),), x.k)]
    if return_index:
        out.append(from_list(first, (len(first),), "i"))
    if return_inverse:
        out.append(from_list(inv, x.a.shape, "i"))
    if return_counts:
        out.append(from_list(counts, (len(counts),), "i"))
    return tuple(out) if len(out) > 1 else out[0]


@fct("in1d")
def in1d(x, y, assume_unique=False, invert=False, **_):
    x = asarr(x)
    y = list(asarr(y).a.reshape(-1))
    conc = None
    if builtins.all(sc.is_conc(v) and not isinstance(v, (C, float)) for v in y):
        conc = set(y)

    def f(v):
        if conc is not None and sc.is_conc(v):
            r = v in conc
        else:
            r = sc.b_any([sc.eq(v, w) for w in y])
        return sc.b_not(r) if invert else r
    return _map(f, x.ravel(), k="b")


@fct()
def isin(x, y, assume_unique=False, invert=False, **_):
    x = asarr(x)
    r = in1d(x, y, invert=invert)
    return r.reshape(x.a.shape) if x.a.ndim else r.a[0]


@fct()
def intersect1d(x, y, assume_unique=False, return_indices=False):
    x = asarr(x)
    y = asarr(y)
    if return_indices:
        (ux, ix) = unique(x, return_index=True)
        (uy, iy) = unique(y, return_index=True)
        out = ([], [], [])
        for (i, v) in enumerate(ux.a):
            for (j, w) in enumerate(uy.a):
                if bool(sc.eq(v, w)):
                    out[0].append(v)
                    out[1].append(ix.a[i])
                    out[2].append(iy.a[j])
        return tuple(from_list(o, (len(o),), "i" if n else x.k) for (n, o) in enumerate(out))
    ux = unique(x)
    return ux[in1d(ux, y)]


@fct()
def setdiff1d(x, y, assume_unique=False):
    x = asarr(x)
    ux = x.ravel() if assume_unique else unique(x)
    return ux[in1d(ux, y, invert=True)]


@fct()
def union1d(x, y):
    return unique(F["concatenate"]((asarr(x).ravel(), asarr(y).ravel())))


@fct()
def setxor1d(x, y, assume_unique=False):
    return union1d(setdiff1d(x, y), setdiff1d(y, x))


@fct()
def searchsorted(a, v, side="left", sorter=None):
    a = asarr(a)
    if sorter is not None:
        a = a[sorter]
    lst = list(a.a)
    f = sc.less if side == "left" else sc.less_equal

    def one(x):
        r = 0
        for w in lst:
            r = sc.add(r, sc.ite(f(w, x), 1, 0))
        return r
    if isinstance(v, (Arr, np.ndarray, list, tuple)):
        return _map(one, v, k="i")
    return one(v)


@fct()
def digitize(x, bins, right=False):
    b = asarr(bins)
    return searchsorted(b, x, side="left" if right else "right")


@fct()
def flatnonzero(x):
    x = asarr(x)
    out = [i for (i, v) in enumerate(x.a.reshape(-1)) if bool(sc.truth(v))]
    return from_list(out, (len(out),), "i")


@fct()
def nonzero(x):
    x = asarr(x)
    out = [idx for idx in np.ndindex(*x.a.shape) if bool(sc.truth(x.a[idx]))]
    return tuple(from_list([o[d] for o in out], (len(out),), "i") for d in range(x.a.ndim))


@fct()
def argwhere(x):
    r = nonzero(x)
    return F["stack"](r, axis=-1)


@fct()
def where(c, *args):
    if not args:
        return nonzero(c)
    (x, y) = args
    k = _max_kind(asarr(x).k, asarr(y).k)
    return _bc(lambda c_, p, q: cast(sc.ite(c_, p, q), k if k == "c" else None), c, x, y, k=k)


@fct()
def select(conds, choices, default=0):
    r = default
    for (c, v) in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


@fct()
def choose(a, choices, **_):
    r = choices[-1]
    for i in reversed(range(len(choices)-1)):
        r = where(_UFUNCS["equal"](a, i), choices[i], r)
    return r


@fct()
def extract(c, x):
    return asarr(x).ravel()[asarr(c).ravel()]


@fct()
def compress(c, x, axis=None):
    x = asarr(x)
    if axis is None:
        return x.ravel()[asarr(c)]
    key = [slice(None)]*x.a.ndim
    key[axis] = flatnonzero(c)
    return x[tuple(key)]


@fct()
def put(x, idx, v, **_):
    fl = Arr(x.a.reshape(-1), x.k)
    if not np.shares_memory(fl.a, x.a):
        raise Unsupported("put on a non-contiguous array")
    fl[idx] = v


@fct()
def copyto(dst, src, where=True, **_):
    if where is True:
        dst[...] = src
    else:
        dst[...] = F["where"](where, src, dst)


@fct()
def putmask(x, mask, v):
    x[...] = F["where"](mask, v, x)


@fct()
def place(x, mask, v):
    v = asarr(v)
    if v.a.size == 1:
        putmask(x, mask, v.a.reshape(-1)[0])
    else:
        raise Unsupported("place")


@fct()
def fill_diagonal(x, v, **_):
    n = builtins.min(x.a.shape)
    vv = asarr(v).a.reshape(-1)
    for i in range(n):
        x[(i,)*x.a.ndim] = vv[i % vv.size]


@fct()
def bincount(x, weights=None, minlength=0):
    x = [v.__index__() for v in asarr(x).a.reshape(-1)]
    w = [1]*len(x) if weights is None else list(asarr(weights).a.reshape(-1))
    n = builtins.max([minlength]+[v+1 for v in x])
    out = [0]*n
    for (i, v) in zip(x, w):
        out[i] = sc.add(out[i], v)
    return from_list(out, (n,), "i" if weights is None else "f")


@fct("real")
def real_(x):
    if isinstance(x, (Arr, np.ndarray, list, tuple)):
        return asarr(x).real
    return num(x).real


@fct("imag")
def imag_(x):
    if isinstance(x, (Arr, np.ndarray, list, tuple)):
        return asarr(x).imag
    return num(x).imag


F["real"] = real_
F["imag"] = imag_


@fct()
def angle(x, **_):
    raise Unsupported("angle")


@fct()
def iscomplexobj(x):
    return asarr(x).k == "c"


@fct()
def isrealobj(x):
    return asarr(x).k != "c"


@fct()
def iscomplex(x):
    return _UFUNCS["not_equal"](asarr(x).imag, 0)


@fct()
def isreal(x):
    return _UFUNCS["equal"](asarr(x).imag, 0)


@fct("clip")
def clip(x, lo=None, hi=None, a_min=None, a_max=None, min=None, max=None, **_):
    lo = lo if lo is not None else (a_min if a_min is not None else min)
    hi = hi if hi is not None else (a_max if a_max is not None else max)
    if lo is not None:
        x = _UFUNCS["maximum"](x, lo)
    if hi is not None:
        x = _UFUNCS["minimum"](x, hi)
    return x


@fct("round", "around", "round_")
def round_(x, decimals=0, **_):
    if decimals == 0:
        return _UFUNCS["rint"](x)
    s = 10**decimals
    return _UFUNCS["rint"](asarr(x)*s)/s


F["round"] = F["around"] = round_


@fct()
def nan_to_num(x, nan=0, **_):
    return _map(lambda v: nan if _isnan(v) else v, x)


@fct()
def isclose(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), equal_nan=False):
    def f(x, y):
        if _isnan(x) or _isnan(y):
            return bool(equal_nan and _isnan(x) and _isnan(y))
        if _isinf(x) or _isinf(y):
            return sc.eq(x, y)
        return sc.less_equal(sc.absolute(sc.sub(x, y)), sc.add(atol, sc.mul(rtol, sc.absolute(y))))
    return _bc(f, a, b, k="b")


@fct()
def allclose(a, b, **kw):
    r = isclose(a, b, **kw)
    return all_(r) if isinstance(r, Arr) else r


@fct()
def array_equal(a, b, **_):
    a = asarr(a)
    b = asarr(b)
    if a.a.shape != b.a.shape:
        return False
    return all_(a == b)


@fct()
def array_equiv(a, b):
    return all_(_UFUNCS["equal"](a, b))


@fct()
def unravel_index(idx, shape, order="C"):
    shape = _cshape(shape)
    if isinstance(shape, int):
        shape = (shape,)
    total = int(np.prod(shape))
    dims = list(range(len(shape)))
    seq = dims if order == "F" else dims[::-1]
    scal = not isinstance(idx, (Arr, np.ndarray, list, tuple))
    x = asarr(idx)
    if x.k not in "ib" and x.a.size:
        raise TypeError("only int indices permitted")
    bad = sc.b_any([sc.b_or(sc.less(v, 0), sc.less_equal(total, v)) for v in x.a.reshape(-1)])
    if bool(bad):
        raise ValueError("index is out of bounds for array with size %d" % total)
    out = [None]*len(shape)
    rem = x
    for (p, d) in enumerate(seq):
        if p == len(seq)-1:
            out[d] = rem
        else:
            out[d] = _map(lambda v: sc.mod(v, shape[d]), rem, k="i")
            rem = _map(lambda v: sc.floordiv(v, shape[d]), rem, k="i")
    if scal:
        return tuple(o.a[()] for o in out)
    return tuple(out)


@fct()
def ravel_multi_index(mi, shape, mode="raise", order="C"):
    shape = _cshape(shape)
    dims = list(range(len(shape)))
    seq = dims if order == "F" else dims[::-1]
    mi = list(mi)
    if len(mi) != len(shape):
        raise ValueError("parameter multi_index must be a sequence of length %d" % len(shape))
    for d in dims:
        x = asarr(mi[d])
        bad = sc.b_any([sc.b_or(sc.less(v, 0), sc.less_equal(shape[d], v)) for v in x.a.reshape(-1)])
        if bool(bad):
            raise ValueError("invalid entry in coordinates array")
    r = 0
    st = 1
    for d in seq:
        r = _UFUNCS["add"](r, _UFUNCS["multiply"](st, mi[d]))
        st *= shape[d]
    return r


@fct()
def pad(x, width, mode="constant", constant_values=0, **_):
    x = asarr(x)
    if mode != "constant":
        raise Unsupported("pad mode")
    w = np.broadcast_to(np.array(asarr(width).a, dtype=object), (x.a.ndim, 2))
    shape = tuple(int(n+w[d, 0]+w[d, 1]) for (d, n) in enumerate(x.a.shape))
    r = full(shape, constant_values, dtype=x.dtype)
    r[tuple(slice(int(w[d, 0]), int(w[d, 0])+n) for (d, n) in enumerate(x.a.shape))] = x
    return r


@fct()
def interp(*a, **k):
    raise Unsupported("interp")


@fct()
def vectorize(f, *a, **k):
    def g(*args):
        return _bc(f, *args)
    return g


@fct()
def apply_along_axis(f, axis, x, *a, **k):
    x = asarr(x)
    m = np.moveaxis(x.a, axis, -1)
    out = {}
    for j in np.ndindex(*m.shape[:-1]):
        out[j] = asarr(f(Arr(m[j].copy(), x.k), *a, **k))
    sh = next(iter(out.values())).a.shape
    r = np.empty(m.shape[:-1]+sh, dtype=object)
    for (j, v) in out.items():
        r[j] = v.a if sh else v.a[()]
    return _wrap(np.moveaxis(r, -1, axis) if sh else r)


@fct()
def fromiter(it, dtype, count=-1):
    return array(list(it), dtype=dtype)


@fct()
def ndim(x): return asarr(x).ndim


@fct()
def shape(x): return asarr(x).shape


@fct()
def size(x, axis=None):
    x = asarr(x)
    return x.size if axis is None else x.shape[axis]


@fct()
def isscalar(x):
    return isinstance(x, (S, SB, C)) or np.isscalar(x)


@fct()
def issubdtype(a, b):
    a = getattr(a, "np_type", a)
    (a, b) = (getattr(a, "native", a), getattr(b, "native", b))
    if isinstance(a, VDType):
        a = a.d
    if isinstance(b, VDType):
        b = b.d
    return np.issubdtype(a, b)


@fct("dtype")
def dtype_(x):
    if isinstance(x, VDType):
        return x
    return VDType(kind_of_dtype(x))


F["dtype"] = dtype_


@fct()
def result_type(*args):
    ks = [a.k if isinstance(a, (Arr, VDType)) else kind_of_dtype(a) for a in args]
    return VDType(_max_kind(*ks))


@fct()
def may_share_memory(a, b):
    return np.may_share_memory(asarr(a).a, asarr(b).a)


F["shares_memory"] = may_share_memory


@fct()
def finfo(dt):
    if isinstance(dt, VDType):
        dt = dt.d
    r = np.finfo(dt)
    # no overflow in real arithmetic
    return types.SimpleNamespace(eps=num(r.eps), max=INF, min=-INF, tiny=num(r.tiny), resolution=num(r.resolution))


# ---------------------------------------------------------------- linear algebra

HOOKS = {}


def _norm2(lst):
    return sc.sqrt(_sum([sc.mul(x, _conj(x)) if not isinstance(x, C) else sc.add(sc.mul(x.re, x.re), sc.mul(x.im, x.im)) for x in lst]), True)


def _norm(x, ord=None, axis=None, keepdims=False, **_):
    x = asarr(x)
    if axis is None and x.a.ndim > 1 and ord is None:
        x = x.ravel()
    if axis is None:
        if x.a.ndim > 1:
            raise Unsupported("matrix norm")
        axis = 0
    if isinstance(axis, tuple):
        raise Unsupported("matrix norm")
    if ord is None or ord == 2:
        red = _norm2
    elif ord == 1:
        def red(lst): return _sum([sc.absolute(v) for v in lst])
    elif ord == INF:
        def red(lst):
            r = 0
            for v in lst:
                r = sc.maximum(r, sc.absolute(v))
            return r
    else:
        raise Unsupported("norm order")
    return _reduce_axis(x, axis, keepdims, red, "f")


def _is_zero(v):
    v = num(v)
    if isinstance(v, C):
        return _is_zero(v.re) and _is_zero(v.im)
    return bool(sc.eq(v, 0))


def _eliminate(rows, cols):
    """Reduced row echelon form over the first columns (in place, forks on symbolic pivots); list of the pivot columns."""
    piv = []
    r = 0
    for c in range(cols):
        cand = [i for i in range(r, len(rows)) if sc.is_conc(rows[i][c])]
        cand += [i for i in range(r, len(rows)) if i not in cand]
        p = next((i for i in cand if not _is_zero(rows[i][c])), None)
        if p is None:
            continue
        (rows[r], rows[p]) = (rows[p], rows[r])
        x = rows[r][c]
        rows[r] = [0 if k < c else 1 if k == c else sc.div(v, x) for (k, v) in enumerate(rows[r])]
        for i in range(len(rows)):
            if i != r and not (sc.is_conc(rows[i][c]) and _is_zero(rows[i][c])):
                f = rows[i][c]
                rows[i] = [0 if k == c else sc.sub(v, sc.mul(f, w)) for (k, (v, w)) in enumerate(zip(rows[i], rows[r]))]
        piv.append(c)
        r += 1
        if r == len(rows):
            break
    return piv


def _rows(x):
    return [list(r) for r in x.a]


def _lin_solve(a, b):
    (a, b) = (asarr(a), asarr(b))
    if a.a.ndim != 2 or a.shape[0] != a.shape[1] or b.a.shape[0] != a.shape[0]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    m = b.a.reshape(b.a.shape[0], -1)
    n = a.shape[0]
    rows = [x+list(y) for (x, y) in zip(_rows(a), m)]
    if len(_eliminate(rows, n)) < n:
        raise np.linalg.LinAlgError("Singular matrix")
    k = "c" if "c" in (a.k, b.k) else "f"
    out = np.empty(m.shape, dtype=object)
    for i in range(n):
        for j in range(m.shape[1]):
            out[i, j] = cast(rows[i][n+j], k)
    return Arr(out.reshape(b.a.shape), k)


def _lin_rank(a, tol=None, **_):
    a = asarr(a)
    return len(_eliminate(_rows(a), a.shape[1]))


def _lin_lstsq(a, b, rcond=None, **_):
    (a, b) = (asarr(a), asarr(b))
    h = MODULE.conj(a).T
    rank = _lin_rank(a)
    if rank < a.shape[1]:
        raise Unsupported("least squares of a singular system")
    return _lin_solve(MODULE.matmul(h, a), MODULE.matmul(h, b)), asarr([]), rank, None


def _lin_pinv(a, *_, **__):
    a = asarr(a)
    h = MODULE.conj(a).T
    if _lin_rank(a) < a.shape[1]:
        raise Unsupported("pseudo-inverse of a singular system")
    return _lin_solve(MODULE.matmul(h, a), h)


def _lin_inv(a):
    a = asarr(a)
    return _lin_solve(a, MODULE.eye(a.shape[0]))


_EXACT = {"solve": _lin_solve, "matrix_rank": _lin_rank, "lstsq": _lin_lstsq, "pinv": _lin_pinv, "inv": _lin_inv}


def _linalg(name):
    def g(*args, **kw):
        if name in HOOKS:
            return HOOKS[name](*args, **kw)
        if name in _EXACT:
            return _EXACT[name](*args, **kw)
        import numpy.linalg as lna
        arrs = [asarr(a) for a in args if isinstance(a, (Arr, np.ndarray, list, tuple))]
        if builtins.all(is_conc_arr(a) for a in arrs):
            f = getattr(lna, name)
            r = f(*[native(asarr(a)) if isinstance(a, (Arr, list, tuple)) else a for a in args], **kw)
            if isinstance(r, tuple):
                return tuple(_wrap(v) for v in r)
            return _wrap(r)
        raise Unsupported("linear algebra: %s" % name)
    g.__name__ = name
    return g


class _Linalg(types.ModuleType):
    def __getattr__(self, name):
        if name == "norm":
            return _norm
        if name == "LinAlgError":
            return np.linalg.LinAlgError
        if name == "vector_norm":
            return _norm
        if name in ("cross", "outer", "matmul", "diagonal", "trace", "tensordot"):
            return getattr(MODULE, name)
        if name.startswith("__"):
            raise AttributeError(name)
        return _linalg(name)


LINALG = _Linalg("numpy.linalg")


# ---------------------------------------------------------------- FFT (exact DFT)

def _dft1(lst, n, sgn, scale):
    lst = list(lst)[:n]+[0]*(n-len(lst))
    pi = sc.pi()
    w = []
    for j in range(n):
        a = sc.mul(Fraction(2*j, n), pi)
        w.append(C(sc.cos(a), sc.mul(sgn, sc.sin(a))))
    out = []
    for k in range(n):
        r = C(0, 0)
        for (j, v) in enumerate(lst):
            v = num(v)
            if sc.is_conc(v) and not isinstance(v, float) and not bool(v != 0):
                continue
            r = sc.add(r, sc.mul(w[(j*k) % n], v))
        if scale:
            r = sc.mul(r, Fraction(1, n))
        out.append(cast(r, "c"))
    return out


def _fft_axis(x, n, axis, sgn, scale):
    m = np.moveaxis(x.a, axis, -1)
    n = m.shape[-1] if n is None else int(n)
    out = np.empty(m.shape[:-1]+(n,), dtype=object)
    for j in np.ndindex(*m.shape[:-1]):
        r = _dft1(m[j], n, sgn, scale)
        for (i, v) in enumerate(r):
            out[j+(i,)] = v
    return Arr(np.moveaxis(out, -1, axis), "c")


def _norm_scale(norm, inv):
    if norm in (None, "backward"):
        return inv
    if norm == "forward":
        return not inv
    raise Unsupported("fft norm")


def _fftn(inv):
    def g(x, s=None, axes=None, norm=None, overwrite_x=False, workers=None, shape=None, **_):
        x = asarr(x)
        if axes is None:
            axes = tuple(range(x.a.ndim)) if s is None else tuple(range(x.a.ndim-len(s), x.a.ndim))
        axes = [int(a) for a in axes]
        sizes = [None]*len(axes) if s is None else [int(v) for v in s]
        if s is not None and len(sizes) != len(axes):
            raise ValueError("shape requires more axes than are present")
        for (a, n) in zip(axes, sizes):
            x = _fft_axis(x, n, a, 1 if inv else -1, _norm_scale(norm, inv))
        return Arr(x.a.copy(), "c")
    return g


def _fft1(inv):
    def g(x, n=None, axis=-1, norm=None, **_):
        return _fft_axis(asarr(x), n, axis, 1 if inv else -1, _norm_scale(norm, inv))
    return g


def _rfft(x, n=None, axis=-1, norm=None, **_):
    x = asarr(x)
    if x.k == "c":
        raise TypeError("rfft of complex values")
    m = np.moveaxis(_fft_axis(x, n, axis, -1, _norm_scale(norm, False)).a, axis, -1)
    return Arr(np.moveaxis(m[..., :m.shape[-1]//2+1], -1, axis).copy(), "c")


def _irfft(x, n=None, axis=-1, norm=None, **_):
    m = np.moveaxis(asarr(x).a, axis, -1)
    n = 2*(m.shape[-1]-1) if n is None else int(n)
    if n < 1:
        raise ValueError("Invalid number of FFT data points (%d) specified." % n)
    out = np.empty(m.shape[:-1]+(n,), dtype=object)
    for j in np.ndindex(*m.shape[:-1]):
        v = [cast(num(y), "c") for y in list(m[j])[:n//2+1]]
        v += [C(0, 0)]*(n//2+1-len(v))
        full = [C(v[0].real, 0)]+[None]*(n-1)
        for k in range(1, n//2+1):
            if 2*k == n:
                full[k] = C(v[k].real, 0)
            else:
                full[k] = v[k]
                full[n-k] = _conj(v[k])
        for (i, y) in enumerate(_dft1(full, n, 1, _norm_scale(norm, True))):
            out[j+(i,)] = num(y).real
    return Arr(np.moveaxis(out, -1, axis), "f")


def _fftfreq(real):
    def g(n, d=1.0, **_):
        n = int(n)
        lst = list(range(n//2+1)) if real else list(range((n-1)//2+1))+list(range(-(n//2), 0))
        return div_arr(lst, sc.mul(n, num(d)))
    return g


def div_arr(lst, x):
    return Arr(np.array([sc.div(v, x) for v in lst]+[None], dtype=object)[:-1], "f")


class _FFT(types.ModuleType):
    def __getattr__(self, name):
        tab = {"fftn": _fftn(False), "ifftn": _fftn(True), "fft": _fft1(False), "ifft": _fft1(True),
               "rfft": _rfft, "irfft": _irfft, "fftfreq": _fftfreq(False), "rfftfreq": _fftfreq(True)}
        if name in tab:
            return tab[name]
        if name in ("fft2", "ifft2"):
            f = _fftn(name[0] == "i")
            return lambda x, s=None, axes=(-2, -1), **k: f(x, s, axes, **k)
        if name == "fftshift" or name == "ifftshift":
            return _struct_fft(name)
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("fft: %s" % name)


def _struct_fft(name):
    def g(x, axes=None):
        x = asarr(x)
        return Arr(getattr(np.fft, name)(x.a, axes=axes), x.k)
    return g


FFT = _FFT("numpy.fft")


# ---------------------------------------------------------------- module

class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Arr, np.ndarray))


class NDArray(metaclass=_Meta):
    """Stand-in of numpy.ndarray (instance check and creation)."""
    def __new__(cls, shape, dtype=None, **_):
        return empty(shape, dtype=dtype)


class _ScalarMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, (S, C, SB)):
            return sc.kind(x) == cls.k
        return isinstance(x, cls.native)


def _mk_scalar_type(native_t, k):
    class T(metaclass=_ScalarMeta):
        def __new__(cls, x=0):
            if isinstance(x, (Arr, np.ndarray, list, tuple)):
                return asarr(x).astype(VDType(k))
            return cast(_elem(x), k)
    T.native = native_t
    T.k = k
    T.__name__ = native_t.__name__
    T.dtype = np.dtype(native_t)
    return T


_SCALARS = {}
for (_nm, _k) in (("float64", "f"), ("float32", "f"), ("complex128", "c"), ("int64", "i"), ("int32", "i"), ("bool_", "b"),
                  ("intp", "i"), ("double", "f"), ("int_", "i")):
    _SCALARS[_nm] = _mk_scalar_type(getattr(np, _nm), _k)


class _AbstractMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, (S, C, SB)):
            return sc.kind(x) in cls.kinds
        return isinstance(x, cls.native)


_ABSTRACT = {nm: _AbstractMeta(nm, (), {"native": getattr(np, nm), "kinds": kinds}) for (nm, kinds) in
             (("integer", "i"), ("signedinteger", "i"), ("floating", "f"), ("complexfloating", "c"), ("inexact", "fc"), ("number", "ifc"))}


class Module(types.ModuleType):
    def __getattr__(self, name):
        if name == "pi":
            return sc.pi()
        if name in ("nan", "NaN", "NAN"):
            return NAN
        if name in ("inf", "Inf", "infty"):
            return INF
        if name == "e":
            return num(np.e)
        if name == "ndarray":
            return NDArray
        if name in _ABSTRACT:
            return _ABSTRACT[name]
        if name in F:
            return F[name]
        if name in _UFUNCS:
            return _UFUNCS[name]
        if name in _SCALARS:
            return _SCALARS[name]
        if name == "linalg":
            return LINALG
        if name == "fft":
            return FFT
        if name == "random":
            return RANDOM
        if name in ("r_", "c_"):
            return _RC(name)
        obj = getattr(np, name)
        if isinstance(obj, type) or not callable(obj):
            return obj
        return _fallback(name, obj)


class _RC:
    def __init__(self, name):
        self.n = name

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        parts = []
        for p in key:
            if isinstance(p, slice):
                p = arange(p.start or 0, p.stop, p.step or 1)
            p = asarr(p)
            parts.append(p.reshape(1) if p.a.ndim == 0 else p)
        if self.n == "c_":
            return F["column_stack"](parts)
        return F["concatenate"](parts)


def _fallback(name, f):
    def g(*args, **kw):
        def un(x):
            if isinstance(x, Arr):
                if not is_conc_arr(x):
                    raise Unsupported("numpy.%s" % name)
                return native(x)
            if isinstance(x, (S, SB, C)):
                if not sc.is_conc(x):
                    raise Unsupported("numpy.%s" % name)
                return _py(x, sc.kind(x))
            if isinstance(x, Fraction):
                return float(x)
            if isinstance(x, VDType):
                return x.d
            if isinstance(x, tuple):
                return tuple(un(v) for v in x)
            if isinstance(x, list):
                return [un(v) for v in x]
            if isinstance(x, type) and isinstance(x, _ScalarMeta):
                return x.native
            return x
        r = f(*[un(x) for x in args], **{k: un(v) for (k, v) in kw.items()})

        def wr(v):
            if isinstance(v, np.ndarray) and v.dtype.kind in "biufc":
                return asarr(v)
            if isinstance(v, np.generic):
                return _wrap(v)
            if isinstance(v, (tuple, list)) and type(v) in (tuple, list):
                return type(v)(wr(w) for w in v)
            return v
        return wr(r)
    g.__name__ = name
    return g


def _permutation(x, axis=0):
    """An arbitrary permutation (fresh distinct symbolic integers)."""
    n = int(x) if not isinstance(x, (Arr, np.ndarray, list, tuple)) else len(x)
    e = eng.cur()
    p = []
    for i in range(n):
        nm = "rnd!%d" % e.fresh_count
        e.fresh_count += 1
        v = z3.Int(nm)
        e.inputs[nm] = v
        e.add(z3.And(v >= 0, v < n))
        p.append(v)
    if n > 1:
        e.add(z3.Distinct(*p))
    p = from_list([sc.from_z3(v) for v in p], (n,), "i")
    if isinstance(x, (Arr, np.ndarray, list, tuple)):
        return asarr(x)[p]
    return p


def _shuffle(x, axis=0):
    x[...] = _permutation(x)


class _Random(types.ModuleType):
    """Random numbers: arbitrary values (fresh symbols) constrained by the documented contract."""

    def __getattr__(self, name):
        if name in HOOKS:
            return HOOKS[name]
        if name.startswith("__"):
            raise AttributeError(name)
        if name == "permutation":
            return _permutation
        if name == "shuffle":
            return _shuffle
        if name in ("default_rng", "RandomState", "Generator"):
            return lambda *a, **k: self
        if name == "seed":
            return lambda *a, **k: None
        raise Unsupported("random: %s" % name)


RANDOM = _Random("numpy.random")

MODULE = Module("numpy")
MODULE.__path__ = []
