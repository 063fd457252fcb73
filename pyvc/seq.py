"""Sequences of any length: known only through their length and what is at position k.

Reading, slicing, concatenation, appending and elementwise comprehension keep the abstraction; everything else
is Unsupported (so that the check falls back to its bounded form instead of guessing).
"""
from . import sym
from .sym import SymNum, Unsupported


def eng():
    return sym.ENG


def _at(v, k):
    f = getattr(type(v), "vc_at", None)
    return f(v, k) if f is not None else _pick(v, k)


def _pick(v, k):
    """Element k of an ordinary list at a possibly symbolic position (0 <= k < len)."""
    if not isinstance(k, SymNum):
        return v[k]
    for i in range(len(v)):
        if k == i:
            return v[i]
    raise Unsupported("position beyond a list")


def repeated(items, n):
    """items * n, for a list of one element, as a sequence of unknown length."""
    return Seq(sym.maximum(n, 0), lambda k: items[0])


def _len(v):
    f = getattr(type(v), "vc_len", None)
    return f(v) if f is not None else len(v)


class Seq:
    vc_lazy = True

    def __init__(self, n, fn, prefix=None, origin=None):
        self.n, self.fn, self.prefix = n, fn, prefix
        self.origin = origin  # (base sequence, position of its first element)

    def vc_len(self):
        return self.n

    def vc_at(self, k):
        return self.fn(k)

    def vc_list(self):
        return Seq(self.n, self.fn, self.prefix, self.origin)

    copy = vc_list
    tolist = vc_list

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    def _clamp(self, i, default):
        if i is None:
            return default
        i = sym.ite(i < 0, i + self.n, i)
        return sym.minimum(sym.maximum(i, 0), self.n)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported("stepped slice of an abstract sequence")
            a, b = self._clamp(i.start, 0), self._clamp(i.stop, self.n)
            f, p = self.fn, self.prefix
            base, off = self.origin or (self, 0)
            return Seq(
                sym.maximum(b - a, 0),
                lambda k: f(a + k),
                None if p is None else (lambda k: p(a + k) - p(a)),
                (base, off + a),
            )
        if isinstance(i, bool) or not isinstance(i, (int, SymNum)):
            if hasattr(i, "__index__") and not isinstance(i, bool):
                i = i.__index__()
            else:
                raise Unsupported("index into an abstract sequence")
        if i >= self.n or i < -self.n:
            raise IndexError("index out of range")
        return self.fn(i + self.n if i < 0 else i)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            if i.step is not None or getattr(type(v), "vc_len", None) or isinstance(v, (list, tuple)):
                raise Unsupported("slice assignment to an abstract sequence")
            a, b = self._clamp(i.start, 0), self._clamp(i.stop, self.n)
            old = self.fn
            self.fn = lambda k: sym.ite(sym.and_(k >= a, k < b), v, old(k))
            self.prefix = self.origin = None
            return
        if i >= self.n or i < -self.n:
            raise IndexError("assignment index out of range")
        j = i + self.n if i < 0 else i
        old = self.fn

        def put(k):
            if isinstance(v, (tuple, list)):  # no number: case by case
                return v if k == j else old(k)
            return sym.ite(k == j, v, old(k))

        self.fn = put
        self.prefix = self.origin = None

    def append(self, v):
        old, n = self.fn, self.n

        def fn(k):
            if k == n:
                return v
            return old(k)

        self.fn, self.n, self.prefix, self.origin = fn, n + 1, None, None

    def __add__(self, o):
        return concat(self, o)

    def __radd__(self, o):
        return concat(o, self)

    def vc_sum(self):
        if self.prefix is None:
            raise Unsupported("sum of an abstract sequence")
        return self.prefix(self.n)

    def _best(self, less):
        e = eng()
        if not self.n > 0:
            raise ValueError("empty sequence")
        j = e.fresh_int("best")
        e.assume(e.and_(j >= 0, j < self.n))
        v = self.fn(j)
        e.witness.append((self, j))
        for t in e.tracked:
            off = self.origin[1] if self.origin else 0
            k = t - off
            if e.and_(k >= 0, k < self.n):
                e.assume(e.not_(less(self.fn(k), v)))
        return v

    def vc_min(self):
        return self._best(lex_less)

    def vc_max(self):
        return self._best(lambda a, b: lex_less(b, a))

    def __iter__(self):
        raise Unsupported("iterating an abstract sequence")

    def __len__(self):
        raise Unsupported("machine length of an abstract sequence")

    def __bool__(self):
        return bool(self.n > 0)

    def __contains__(self, v):
        raise Unsupported("membership in an abstract sequence")

    def __eq__(self, o):
        raise Unsupported("comparing an abstract sequence")

    __hash__ = None

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported("sequence." + n)


def concat(a, b):
    na, nb = _len(a), _len(b)

    def fn(k):
        if k < na:
            return _at(a, k)
        return _at(b, k - na)

    return Seq(na + nb, fn)


def lex_less(a, b):
    if isinstance(a, tuple):
        if not isinstance(b, tuple) or len(a) != len(b):
            raise Unsupported("comparing tuples of different length")
        if not a:
            return False
        return sym.or_(a[0] < b[0], sym.and_(a[0] == b[0], lex_less(a[1:], b[1:])))
    return a < b


def lazy(it):
    if getattr(type(it), "vc_lazy", False):
        return True
    if type(it).__name__ == "VcZip":
        return any(lazy(i) for i in it.its)
    if type(it).__name__ in ("VcEnum", "VcReversed"):
        return lazy(it.it)
    return False


def comp(it, elem, plain):
    """[elem(e) for e in it]: elementwise for sequences of any length (elem assumed free of side effects),
    as written otherwise. The element expression is run on one arbitrary position, so that an exception or a
    failing obligation on any element shows."""
    if not lazy(it) or eng() is None:
        return plain(it)
    e = eng()
    n = _len(it)
    if n > 0:
        k = e.fresh_int("any")
        e.assume(e.and_(k >= 0, k < n))
        elem(_at(it, k))
    return Seq(n, lambda k: elem(_at(it, k)), origin=getattr(it, "origin", None))
