"""Abstract vectors: arrays of known length whose entries are terms, read and written at symbolic positions.

Stands for numpy in the symbolic runs of code that builds vectors (zeros, one-hot assignment, concatenation).
The assumed meaning of these operations is numpy's documented one; numpy's rounding to float16 is left out
(entries are mathematical numbers).
"""
import numpy as np
from pyvc.sym import SymNum, SymBool, Unsupported


class AVec:
    def __init__(self, x, n, fn):
        self.x, self.n, self.fn = x, n, fn

    dtype = np.dtype("float16")
    ndim = 1

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    def __len__(self):
        return self.n

    def vc_len(self):
        return self.n

    def vc_at(self, k):
        return self.fn(k)

    def _index(self, i):
        n = self.n
        if isinstance(i, (int, np.integer)) and not isinstance(i, bool):
            i = int(i)
        elif not isinstance(i, SymNum):
            raise Unsupported("index %r into an abstract vector" % (type(i),))
        if i >= n or i < -n:
            raise IndexError("index out of bounds")
        return i + n if i < 0 else i

    def _slice(self, s):
        if any(isinstance(v, SymNum) for v in (s.start, s.stop, s.step)):
            raise Unsupported("symbolic slice")
        a, b, c = s.indices(self.n)
        if c != 1:
            raise Unsupported("stepped slice")
        return a, max(a, b)

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b = self._slice(i)
            return View(self, a, b)
        return self.fn(self._index(i))

    def __setitem__(self, i, v):
        x, old = self.x, self.fn
        if isinstance(i, slice):
            a, b = self._slice(i)
            w = vec_of(x, v)
            if w is None:
                self.fn = lambda k: x.ite(x.and_(k >= a, k < b), v, old(k))
                return
            if w.n != b - a:
                raise ValueError("could not broadcast")
            wf = w.fn
            self.fn = lambda k: x.ite(x.and_(k >= a, k < b), wf(k - a), old(k))
            return
        i = self._index(i)
        self.fn = lambda k: x.ite(k == i, v, old(k))

    def __iter__(self):
        return iter([self.fn(k) for k in range(self.n)])

    def astype(self, dtype=None, **k):
        return AVec(self.x, self.n, self.fn)

    def copy(self):
        return AVec(self.x, self.n, self.fn)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def tolist(self):
        return list(self)

    def _el(self, o, f):
        w = vec_of(self.x, o)
        a = self.fn
        if w is None:
            return AVec(self.x, self.n, lambda k: f(a(k), o))
        if w.n != self.n:
            raise ValueError("operands could not be broadcast together")
        b = w.fn
        return AVec(self.x, self.n, lambda k: f(a(k), b(k)))

    def __add__(self, o):
        return self._el(o, lambda a, b: a + b)

    __radd__ = __add__

    def __mul__(self, o):
        return self._el(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported("vector." + n)


class View(AVec):
    """A slice: reads and writes go to its base."""

    def __init__(self, base, a, b):
        self.x, self.n, self.base, self.a = base.x, b - a, base, a

    @property
    def fn(self):
        return lambda k, f=self.base.fn: f(k + self.a)

    @fn.setter
    def fn(self, g):
        x, old, a, n = self.x, self.base.fn, self.a, self.n
        self.base.fn = lambda k: x.ite(x.and_(k >= a, k < a + n), g(k - a), old(k))


def vec_of(x, v):
    """An abstract vector of a list, tuple or array; None for a scalar."""
    if isinstance(v, AVec):
        return v
    if isinstance(v, np.ndarray):
        if v.ndim == 0:
            return None
        if v.ndim != 1:
            raise Unsupported("matrix")
        v = list(v)
    if isinstance(v, (list, tuple)):
        vals = [e.item() if isinstance(e, np.generic) else e for e in v]
        if any(isinstance(e, (list, tuple, AVec, np.ndarray)) for e in vals):
            raise Unsupported("nested vector")

        def fn(k):
            if isinstance(k, (int, np.integer)):
                return vals[int(k)] if 0 <= k < len(vals) else 0
            out = 0
            for i, e in enumerate(vals):
                out = x.ite(k == i, e, out)
            return out

        return AVec(x, len(vals), fn)
    return None


class VecNp:
    """The part of numpy that builds vectors."""

    def __init__(self, x):
        self.x = x

    def __getattr__(self, n):
        if n in ("float16", "float32", "float64", "int64", "int32", "bool_", "ndarray", "generic", "integer", "floating", "errstate", "nan", "inf", "isnan"):
            return getattr(np, n)
        raise Unsupported("numpy." + n + " on abstract vectors")

    def _n(self, n):
        if isinstance(n, tuple) and len(n) == 1:
            n = n[0]
        if isinstance(n, (int, np.integer)):
            return int(n)
        raise Unsupported("shape %r" % (n,))

    def zeros(self, n, dtype=None):
        return AVec(self.x, self._n(n), lambda k: 0)

    def ones(self, n, dtype=None):
        return AVec(self.x, self._n(n), lambda k: 1)

    def full(self, n, v, dtype=None):
        return AVec(self.x, self._n(n), lambda k: v)

    def zeros_like(self, a, dtype=None):
        return AVec(self.x, len(a), lambda k: 0)

    def array(self, v, dtype=None):
        w = vec_of(self.x, v)
        if w is None:
            raise Unsupported("array of a scalar")
        return w.copy()

    asarray = array

    def concatenate(self, parts, axis=0, dtype=None):
        x = self.x
        if axis not in (0, -1):
            raise Unsupported("axis")
        ws = []
        for p in parts:
            w = vec_of(x, p)
            if w is None:
                raise ValueError("zero-dimensional arrays cannot be concatenated")
            ws.append((w.n, w.fn))
        total = sum(n for n, _ in ws)

        def fn(k):
            if isinstance(k, (int, np.integer)):
                k = int(k)
                for n, f in ws:
                    if k < n:
                        return f(k)
                    k -= n
                return 0
            off, out = 0, 0
            for n, f in ws:
                out = x.ite(x.and_(k >= off, k < off + n), f(k - off), out)
                off += n
            return out

        return AVec(x, total, fn)

    def hstack(self, parts):
        return self.concatenate(parts)

    def append(self, a, b):
        return self.concatenate([a, b if vec_of(self.x, b) is not None else [b]])

    def eye(self, n, dtype=None):
        x, n = self.x, self._n(n)

        class Eye:
            def __getitem__(self, i):
                i = AVec(x, n, lambda k: 0)._index(i)
                return AVec(x, n, lambda k: x.ite(k == i, 1, 0))

        return Eye()

    identity = eye

    def expand_dims(self, a, axis):
        if axis != 0 or not isinstance(a, AVec):
            raise Unsupported("expand_dims")
        return Row(a)

    def sum(self, a, *r, **k):
        if isinstance(a, AVec) or r or k:
            raise Unsupported("sum")
        return sum(a)


class Row:
    """A matrix of one row."""

    def __init__(self, v):
        self.v = v

    @property
    def shape(self):
        return (1, self.v.n)

    def __len__(self):
        return 1

    def __getitem__(self, i):
        if i == 0:
            return self.v
        raise IndexError(i)


def same_vector(x, label, got, want, describe=None):
    """Every entry of got equals that of want: at one position standing for all of them."""
    x.check(label + ": length", len(got) == len(want))
    if isinstance(got, AVec):
        g = x.fresh_int("position")
        x.assume(x.and_(g >= 0, g < len(want)))
        x.check(label, got.fn(g) == vec_of(x, want).fn(g))
        return
    for i, w in enumerate(want):
        v = got[i]
        if isinstance(v, np.generic):
            v = v.item()
        if isinstance(v, float) or isinstance(w, float):
            # float16 vectors: compare up to their rounding
            with np.errstate(all="ignore"):
                ok = v == w or np.float16(float(w)) == np.float16(v) or abs(v - float(w)) <= 1e-3 * abs(float(w)) + 1e-6
            x.check(label, bool(ok), f"entry {i}: {v} instead of {w}")
        else:
            x.check(label, v == w, f"entry {i}")
