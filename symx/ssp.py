"""
Symbolic stand-in for scipy.sparse: a dense array plus the pattern of the stored entries.
"""

import types
import numpy as np
from . import scalar as sc
from . import snp
from .engine import Unsupported
from .snp import Arr, asarr

np_ = snp.MODULE


class SpMat:
    _is_spmat = True
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, d, m, fmt="csc"):
        self.d = d          # dense Arr (2D)
        self.m = m          # native boolean pattern
        self.format = fmt

    @property
    def shape(self): return self.d.a.shape
    @property
    def ndim(self): return 2
    @property
    def nnz(self): return int(self.m.sum())
    size = nnz
    @property
    def dtype(self): return self.d.dtype
    @property
    def T(self): return self.transpose()

    @property
    def data(self):
        out = []
        for j in range(self.shape[1]):
            for i in range(self.shape[0]):
                if self.m[i, j]:
                    out.append(self.d.a[i, j])
        return snp.from_list(out, (len(out),), self.d.k)

    def __repr__(self): return "SpMat(%r)" % (self.d,)
    def __len__(self): raise TypeError("sparse array length is ambiguous; use getnnz()")
    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def get_shape(self): return self.shape
    def getnnz(self, axis=None):
        if axis is None:
            return self.nnz
        return asarr(self.m.sum(axis=axis))

    def count_nonzero(self, axis=None):
        return snp.MODULE.count_nonzero(self.d, axis=axis)

    def transpose(self, *a, **k): return SpMat(self.d.T.copy(), self.m.T.copy())
    def toarray(self, *a, **k): return self.d.copy()
    todense = toarray
    def copy(self): return SpMat(self.d.copy(), self.m.copy(), self.format)
    def tocsc(self, *a, **k): return self
    def tocsr(self, *a, **k): return self
    def tocoo(self, *a, **k): return self
    def tolil(self, *a, **k): return self
    def asformat(self, *a, **k): return self
    def astype(self, dt, **k): return SpMat(self.d.astype(dt), self.m)
    def conj(self): return SpMat(np_.conj(self.d), self.m)
    conjugate = conj
    def sort_indices(self): pass
    def sum_duplicates(self): pass
    def eliminate_zeros(self):
        for idx in zip(*np.nonzero(self.m)):
            if not bool(sc.truth(self.d.a[idx])):
                self.m[idx] = False
    def diagonal(self, k=0): return Arr(self.d.a.diagonal(k).copy(), self.d.k)
    @property
    def real(self): return SpMat(self.d.real, self.m)
    @property
    def imag(self): return SpMat(self.d.imag, self.m)
    def _red(self, f, axis):
        # the reductions of a sparse matrix are two-dimensional
        return f(self.d) if axis is None else f(self.d, axis=axis, keepdims=True)

    def sum(self, axis=None, **k): return self._red(np_.sum, axis)
    def max(self, axis=None): return self._red(np_.max, axis)
    def min(self, axis=None): return self._red(np_.min, axis)
    def mean(self, axis=None): return self._red(np_.mean, axis)
    def power(self, n): return SpMat(self.d**n, self.m)
    def getcol(self, j): return self[:, j:j+1]
    def getrow(self, j): return self[j:j+1, :]
    def nonzero(self):
        (j, i) = np.nonzero(self.m.T)
        keep = [p for p in range(len(i)) if bool(sc.truth(self.d.a[i[p], j[p]]))]
        return asarr(i[keep]), asarr(j[keep])

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("sparse attribute %s" % name)

    @property
    def row(self):
        return self._coo()[0]

    @property
    def col(self):
        return self._coo()[1]

    def _coo(self):
        (j, i) = np.nonzero(self.m.T)
        return asarr(i), asarr(j)

    @property
    def indices(self): return self._coo()[0]

    @property
    def indptr(self):
        return asarr(np.concatenate(([0], np.cumsum(self.m.sum(axis=0)))))

    def reshape(self, *s, **k): raise Unsupported("sparse reshape")

    def _ufunc(self, uf, args):
        if len(args) == 1 and uf.__name__ in ("absolute", "abs", "fabs", "conj", "conjugate", "negative", "sqrt", "square", "sign", "rint"):
            return SpMat(uf(self.d), self.m.copy())
        if uf.__name__ == "multiply":
            return args[0].multiply(args[1]) if args[0] is self else args[1].multiply(args[0])
        raise Unsupported("sparse ufunc %s" % uf.__name__)

    def __abs__(self): return SpMat(np_.absolute(self.d), self.m.copy())
    def __neg__(self): return SpMat(-self.d, self.m.copy())
    def __pos__(self): return self

    def __array_function__(self, func, types_, args, kwargs):
        return getattr(np_, func.__name__)(*args, **kwargs)

    # indexing
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key, slice(None))
        out = []
        scal = []
        for (ax, k) in enumerate(key):
            if isinstance(k, list):
                k = asarr(k)
            if isinstance(k, (Arr, np.ndarray)):
                k = asarr(k)
                if k.k == "b":
                    k = np_.flatnonzero(k)
                k = np.array([v.__index__() for v in k.a.reshape(-1)], dtype=int)
                n = self.shape[ax]
                if k.size and (k.max() >= n or k.min() < -n):
                    raise IndexError("index out of range")
                scal.append(False)
            elif isinstance(k, slice):
                k = np.arange(self.shape[ax])[slice(snp._cint(k.start), snp._cint(k.stop), snp._cint(k.step))]
                scal.append(False)
            else:
                k = np.array([np.arange(self.shape[ax])[k.__index__()]])
                scal.append(True)
            out.append(k)
        if all(scal):
            return self.d.a[out[0][0], out[1][0]]
        (i, j) = np.ix_(*out)
        both = isinstance(key[0], (Arr, np.ndarray, list)) and isinstance(key[1], (Arr, np.ndarray, list))
        if both and asarr(key[0]).a.ndim == 1 and asarr(key[1]).a.ndim == 1:
            if len(out[0]) != len(out[1]):
                raise IndexError("shape mismatch")
            raise Unsupported("sparse pointwise indexing")
        return SpMat(Arr(self.d.a[i, j].copy(), self.d.k), self.m[i, j].copy())

    def __setitem__(self, key, val):
        self.d[key] = val
        self.m[:] = self.m | np.array([[not (sc.is_conc(v) and not bool(sc.truth(v))) for v in r] for r in self.d.a], dtype=bool).reshape(self.m.shape)

    # arithmetic
    def _bin(self, o, f):
        if isinstance(o, SpMat):
            if o.shape != self.shape:
                raise ValueError("inconsistent shapes")
            return SpMat(f(self.d, o.d), self.m | o.m)
        if isinstance(o, (Arr, np.ndarray)):
            return f(self.d, asarr(o))
        if sc.num(o) is not None and sc.is_conc(o) and o == 0:
            return self.copy()
        raise NotImplementedError("adding a nonzero scalar to a sparse array is not supported")

    def __add__(self, o): return self._bin(o, lambda a, b: a+b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b+a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a-b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b-a)

    def _is_scalar(self, o):
        return not isinstance(o, (SpMat, Arr, np.ndarray, list, tuple)) or (isinstance(o, Arr) and o.a.ndim == 0)

    def _mulscalar(self, o):
        r = snp._map(lambda x: sc.mul(x, o), self.d, k=None)
        k = snp._max_kind(self.d.k, sc.kind(sc.num(o)))
        return SpMat(Arr(r.a, k), self.m.copy())

    def dot(self, o): return self @ o if not self._is_scalar(o) else self._mulscalar(o)

    def __mul__(self, o):
        if self._is_scalar(o):
            return self._mulscalar(o)
        return self @ o

    def __rmul__(self, o):
        if self._is_scalar(o):
            return self._mulscalar(o)
        return self.__rmatmul__(o)

    def __truediv__(self, o):
        if self._is_scalar(o):
            return self._mulscalar(sc.div(1, o))
        raise Unsupported("sparse division")

    def __matmul__(self, o):
        if isinstance(o, SpMat):
            if self.shape[1] != o.shape[0]:
                raise ValueError("matmul: dimension mismatch %s %s" % (self.shape, o.shape))
            return SpMat(np_.matmul(self.d, o.d), (self.m.astype(int) @ o.m.astype(int)) > 0)
        o = asarr(o)
        if o.a.ndim == 0 or self.shape[1] != o.a.shape[0]:
            raise ValueError("matmul: dimension mismatch %s %s" % (self.shape, o.a.shape))
        r = np_.matmul(self.d, o)
        return r if isinstance(r, Arr) else asarr([r])

    def __rmatmul__(self, o):
        o = asarr(o)
        return np_.matmul(o, self.d)

    def multiply(self, o):
        if isinstance(o, SpMat):
            return SpMat(self.d*o.d, self.m & o.m)
        if self._is_scalar(o):
            return self._mulscalar(o)
        return SpMat(self.d*asarr(o), self.m.copy())

    def __pow__(self, n):
        r = self
        for _ in range(n-1):
            r = r @ self
        return r


def _from_dense(a):
    a = asarr(a)
    if a.a.ndim == 1:
        a = a.reshape(1, -1)
    m = np.zeros(a.a.shape, dtype=bool)
    for idx in np.ndindex(*a.a.shape):
        v = a.a[idx]
        m[idx] = not (sc.is_conc(v) and not bool(sc.truth(v)))
    return SpMat(a.copy(), m)


def _mk(arg, shape=None, dtype=None, copy=False, **_):
    if isinstance(arg, SpMat):
        return arg if dtype is None else arg.astype(dtype)
    if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
        (data, (row, col)) = arg
        data = asarr(data)
        row = [v.__index__() for v in asarr(row).a.reshape(-1)]
        col = [v.__index__() for v in asarr(col).a.reshape(-1)]
        val = list(data.a.reshape(-1))
        if not len(val) == len(row) == len(col):
            raise ValueError("row, column, and data array must all be the same length")
        if shape is None:
            shape = (max(row)+1, max(col)+1)
        shape = tuple(int(s) for s in shape)
        d = np_.zeros(shape, dtype=data.dtype)
        m = np.zeros(shape, dtype=bool)
        for (i, j, v) in zip(row, col, val):
            if not (0 <= i < shape[0] and 0 <= j < shape[1]):
                raise ValueError("axis index exceeds matrix dimension")
            d.a[i, j] = sc.add(d.a[i, j], v) if data.k != "b" else sc.b_or(d.a[i, j], v)
            m[i, j] = True
        r = SpMat(d, m)
    elif isinstance(arg, tuple) and len(arg) == 2:
        r = SpMat(np_.zeros(tuple(int(s) for s in arg), dtype=dtype or float), np.zeros(tuple(int(s) for s in arg), dtype=bool))
    elif isinstance(arg, tuple) and len(arg) == 3:
        (data, ind, ptr) = arg
        ind = [v.__index__() for v in asarr(ind).a]
        ptr = [v.__index__() for v in asarr(ptr).a]
        data = asarr(data)
        n = len(ptr)-1
        row = list(ind)
        col = []
        for j in range(n):
            col += [j]*(ptr[j+1]-ptr[j])
        if shape is None:
            shape = (max(row)+1, n)
        return _mk((data, (row, col)), shape=shape, dtype=dtype)
    else:
        r = _from_dense(arg)
    if dtype is not None:
        r = r.astype(dtype)
    return r


def _csr(arg, **kw):
    if isinstance(arg, tuple) and len(arg) == 3:
        r = _mk(arg, shape=None if kw.get("shape") is None else tuple(kw["shape"])[::-1])
        return r.transpose()
    return _mk(arg, **kw)


def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if sc.is_conc(offsets) and not isinstance(offsets, (list, tuple, Arr, np.ndarray)):
        if isinstance(diagonals, (list, tuple)) and len(diagonals) == 1 and isinstance(diagonals[0], (list, tuple, Arr, np.ndarray)):
            lst = [diagonals[0]]
        else:
            lst = [diagonals]
        offs = [int(offsets)]
    else:
        offs = [int(v) for v in offsets]
        lst = list(diagonals)
    lst = [np_.atleast_1d(asarr(v)) for v in lst]
    if shape is None:
        n = lst[0].a.size+abs(offs[0])
        shape = (n, n)
    shape = tuple(int(s) for s in shape)
    k = snp._max_kind("f", *[v.k for v in lst])
    d = np_.zeros(shape, dtype=snp.VDType(k))
    m = np.zeros(shape, dtype=bool)
    for (v, o) in zip(lst, offs):
        n = min(shape[0]+min(o, 0), shape[1]-max(o, 0))
        vals = list(v.a)
        if len(vals) == 1:
            vals = vals*n
        if len(vals) != n:
            raise ValueError("Diagonal length does not agree with array size")
        for p in range(n):
            (i, j) = (p-min(o, 0), p+max(o, 0))
            d.a[i, j] = sc.add(d.a[i, j], vals[p])
            m[i, j] = True
    r = SpMat(d, m)
    return r if dtype is None else r.astype(dtype)


def _blk(x):
    return x if isinstance(x, SpMat) else _from_dense(x)


def bmat(blocks, format=None, dtype=None):
    rows = len(blocks)
    cols = len(blocks[0])
    hs = [None]*rows
    ws = [None]*cols
    for i in range(rows):
        for j in range(cols):
            b = blocks[i][j]
            if b is not None:
                b = _blk(b)
                if hs[i] not in (None, b.shape[0]) or ws[j] not in (None, b.shape[1]):
                    raise ValueError("blocks[%d,%d] has incompatible dimensions" % (i, j))
                hs[i] = b.shape[0]
                ws[j] = b.shape[1]
    if None in hs or None in ws:
        raise ValueError("blocks have an undefined size")
    ks = ["f"]
    out = []
    msk = []
    for i in range(rows):
        r = []
        q = []
        for j in range(cols):
            b = blocks[i][j]
            if b is None:
                r.append(np_.zeros((hs[i], ws[j])).a)
                q.append(np.zeros((hs[i], ws[j]), dtype=bool))
            else:
                b = _blk(b)
                ks.append(b.d.k)
                r.append(b.d.a)
                q.append(b.m)
        out.append(np.concatenate(r, axis=1))
        msk.append(np.concatenate(q, axis=1))
    k = snp._max_kind(*ks)
    r = SpMat(Arr(np.concatenate(out, axis=0), k), np.concatenate(msk, axis=0))
    return r if dtype is None else r.astype(dtype)


def hstack(blocks, format=None, dtype=None):
    return bmat([list(blocks)], dtype=dtype)


def vstack(blocks, format=None, dtype=None):
    return bmat([[b] for b in blocks], dtype=dtype)


def block_diag(mats, format=None, dtype=None):
    n = len(mats)
    mats = [_blk(m) for m in mats]
    r = []
    for i in range(n):
        r.append([mats[j] if i == j else SpMat(np_.zeros((mats[i].shape[0], mats[j].shape[1])), np.zeros((mats[i].shape[0], mats[j].shape[1]), dtype=bool)) for j in range(n)])
    return bmat(r, dtype=dtype)


def eye(n, m=None, k=0, dtype=float, format=None):
    return _from_dense(np_.eye(n, m, k, dtype=dtype))


def identity(n, dtype=float, format=None):
    return eye(n, dtype=dtype)


def kron(a, b, format=None):
    a = _blk(a)
    b = _blk(b)
    return SpMat(np_.kron(a.d, b.d), np.kron(a.m, b.m))


class _Sps(types.ModuleType):
    def __getattr__(self, name):
        tab = {"diags": diags, "diags_array": diags, "bmat": bmat, "block_array": bmat, "hstack": hstack, "vstack": vstack,
               "block_diag": block_diag, "eye": eye, "eye_array": eye, "identity": identity, "kron": kron,
               "issparse": lambda x: isinstance(x, SpMat), "isspmatrix": lambda x: isinstance(x, SpMat),
               "find": lambda m: (m.row, m.col, m.data)}
        if name in tab:
            return tab[name]
        if name in ("csc_matrix", "coo_matrix", "lil_matrix", "csc_array", "coo_array", "lil_array", "dok_matrix"):
            return _mk
        if name in ("csr_matrix", "csr_array"):
            return _csr
        if name == "csgraph":
            return CSGRAPH
        if name == "linalg":
            return SLINALG
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("scipy.sparse.%s" % name)


SPS = _Sps("scipy.sparse")
SPS.__path__ = []


# ---------------------------------------------------------------- graphs

def connected_components(csgraph, directed=True, connection="weak", return_labels=True):
    """Connected components (weak); fork on the symbolic entries."""
    g = _blk(csgraph)
    n = g.shape[0]
    adj = np.zeros((n, n), dtype=bool)
    for i in range(n):
        for j in range(n):
            if g.m[i, j] and bool(sc.truth(g.d.a[i, j])):
                adj[i, j] = True
                adj[j, i] = True
    if directed and connection == "strong":
        raise Unsupported("strongly connected components")
    lab = [-1]*n
    cnt = 0
    for i in range(n):
        if lab[i] < 0:
            stack = [i]
            while stack:
                k = stack.pop()
                if lab[k] < 0:
                    lab[k] = cnt
                    stack += [q for q in range(n) if adj[k, q] and lab[q] < 0]
            cnt += 1
    if return_labels:
        return cnt, snp.from_list(lab, (n,), "i")
    return cnt


class _Csg(types.ModuleType):
    def __getattr__(self, name):
        if name == "connected_components":
            return connected_components
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("scipy.sparse.csgraph.%s" % name)


CSGRAPH = _Csg("scipy.sparse.csgraph")


# ---------------------------------------------------------------- solvers (contracts supplied by the harness)

HOOKS = {}


class LinearOperator:
    def __init__(self, shape, matvec=None, rmatvec=None, dtype=None, **k):
        self.shape = shape
        self.dtype = dtype
        self._m = matvec
        self._r = rmatvec

    def matvec(self, x): return self._m(x)
    def rmatvec(self, x): return self._r(x)
    def dot(self, x): return self._m(x)
    def __mul__(self, x): return self._m(x)
    def __matmul__(self, x): return self._m(x)
    def __call__(self, x): return self._m(x)


class _Sla(types.ModuleType):
    def __getattr__(self, name):
        if name in HOOKS:
            return HOOKS[name]
        if name == "LinearOperator":
            return LinearOperator
        if name == "aslinearoperator":
            return lambda x: x
        if name == "norm":
            return lambda m, *a, **k: snp._norm(m.d.ravel() if isinstance(m, SpMat) else m, *a, **k)
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("scipy.sparse.linalg.%s (no contract)" % name)


SLINALG = _Sla("scipy.sparse.linalg")
