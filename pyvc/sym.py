"""Symbolic proxy values.  The instrumented repository code runs on these exactly as it runs on
ordinary values; every branch on a symbolic condition is a case split of the verifier."""
import math
from fractions import Fraction

import numpy as np

from . import smt
from .smt import BOOL, INT, REAL, T


class EngineSignal(BaseException):
    """Base of everything that must fly through the code under verification untouched."""


class Unsupported(EngineSignal):
    """The code left the subset the verifier reasons about."""


class PathEnd(EngineSignal):
    """The current path is finished (pruned, or closed by a loop invariant)."""


ENG = None  # the current symbolic engine
MARK = "\u27e6sym\u27e7"


def set_engine(e):
    global ENG
    ENG = e


def wrap(t):
    if t.op == "lit":
        return t.val
    if t.sort == BOOL:
        return SymBool(t)
    if t.sort == INT:
        return SymInt(t)
    return SymReal(t)


def is_sym(v):
    return isinstance(v, (SymBool, SymNum, Rope))


def term(v):
    if isinstance(v, (SymBool, SymNum)):
        return v.t
    if isinstance(v, (bool, np.bool_)):
        return smt.lit(bool(v))
    if isinstance(v, (int, np.integer)):
        return smt.lit(int(v))
    if isinstance(v, Fraction):
        return smt.lit(v)
    if isinstance(v, (float, np.floating)):
        if math.isinf(v) or math.isnan(v):
            raise Unsupported("inf/nan in symbolic arithmetic")
        return smt.lit(Fraction(float(v)))
    return None


def _isinf(v):
    return isinstance(v, (float, np.floating)) and math.isinf(v)


class SymBool:
    __slots__ = ("t",)
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ENG.decide(self.t)

    def __and__(self, o):
        return wrap(smt.and_(self.t, _b(o)))

    __rand__ = __and__

    def __or__(self, o):
        return wrap(smt.or_(self.t, _b(o)))

    __ror__ = __or__

    def __invert__(self):
        return wrap(smt.not_(self.t))

    def __eq__(self, o):
        t = term(o)
        return False if t is None else wrap(smt.eq(self.t, t))

    def __ne__(self, o):
        t = term(o)
        return True if t is None else wrap(smt.not_(smt.eq(self.t, t)))

    def __hash__(self):
        return hash(bool(self))

    def _i(self):
        return wrap(smt.ite(self.t, smt.lit(1), smt.lit(0)))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __str__(self):
        return MARK

    __repr__ = __str__

    def __format__(self, spec):
        return MARK


def _b(o):
    t = term(o)
    if t is None:
        raise Unsupported(f"boolean op on {type(o)}")
    if t.sort != BOOL:
        t = smt.not_(smt.eq(t, smt.lit(0)))
    return t


class SymNum:
    __slots__ = ("t",)
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    # arithmetic -------------------------------------------------------------
    def _bin(self, o, f, swap=False):
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                return self._bin(o.item(), f, swap)
            out = np.empty(o.shape, dtype=object)
            for i, v in np.ndenumerate(o):
                out[i] = self._bin(v, f, swap)
            return out
        t = term(o)
        if t is None:
            return NotImplemented
        return wrap(f(t, self.t) if swap else f(self.t, t))

    def __add__(self, o):
        return self._bin(o, smt.add)

    def __radd__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._bin(o, smt.add, True)

    def __sub__(self, o):
        return self._bin(o, smt.sub)

    def __rsub__(self, o):
        return self._bin(o, smt.sub, True)

    def __mul__(self, o):
        if isinstance(o, (str, Rope)) and isinstance(self, SymInt):
            return rope_repeat(o, self)
        if isinstance(o, (list, tuple)) and isinstance(self, SymInt):
            if isinstance(o, list) and len(o) == 1 and getattr(ENG, "abstract_lists", False) and ENG.mode_unroll is None:
                from .seq import repeated

                return repeated(o, self)
            return o * ENG.concretise(self.t)
        return self._bin(o, smt.mul)

    def __rmul__(self, o):
        if isinstance(o, (str, Rope)) and isinstance(self, SymInt):
            return rope_repeat(o, self)
        if isinstance(o, (list, tuple)) and isinstance(self, SymInt):
            if isinstance(o, list) and len(o) == 1 and getattr(ENG, "abstract_lists", False) and ENG.mode_unroll is None:
                from .seq import repeated

                return repeated(o, self)
            return o * ENG.concretise(self.t)
        return self._bin(o, smt.mul, True)

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return MARK
        return mod(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), mod(self, o)

    def __rdivmod__(self, o):
        return floordiv(o, self), mod(o, self)

    def __pow__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported("pow")

    def __neg__(self):
        return wrap(smt.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        z = smt.lit(0) if self.t.sort == INT else smt.lit(Fraction(0))
        return wrap(smt.ite(smt.le(z, self.t), self.t, smt.neg(self.t)))

    # comparison ---------------------------------------------------------------
    def _cmp(self, o, f, inf_pos, inf_neg):
        if _isinf(o):
            return inf_pos if o > 0 else inf_neg
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                return self._cmp(o.item(), f, inf_pos, inf_neg)
            return np.array([bool(self._cmp(v, f, inf_pos, inf_neg)) for v in o.ravel()]).reshape(
                o.shape
            )
        t = term(o)
        if t is None:
            return NotImplemented
        return wrap(f(self.t, t))

    def __eq__(self, o):
        r = self._cmp(o, smt.eq, False, False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: smt.not_(smt.eq(a, b)), True, True)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, smt.lt, True, False)

    def __le__(self, o):
        return self._cmp(o, smt.le, True, False)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: smt.lt(b, a), False, True)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: smt.le(b, a), False, True)

    def __bool__(self):
        return ENG.decide(smt.not_(smt.eq(self.t, smt.lit(0))))

    def __hash__(self):
        return hash(ENG.concretise(self.t))

    def __str__(self):
        return MARK

    __repr__ = __str__

    def __format__(self, spec):
        return MARK

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymInt(SymNum):
    __slots__ = ()

    def __index__(self):
        return ENG.concretise(self.t)

    def __int__(self):
        return ENG.concretise(self.t)

    def __float__(self):
        return float(ENG.concretise(self.t))

    def __and__(self, o):
        raise Unsupported("bitwise op")

    __or__ = __xor__ = __lshift__ = __rshift__ = __and__

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def item(self):
        return self

    def is_integer(self):
        return True


class SymReal(SymNum):
    __slots__ = ()

    def __int__(self):
        raise Unsupported("int() of a symbolic real in C code")

    def __float__(self):
        raise Unsupported("float() of a symbolic real in C code")

    def item(self):
        return self

    def log(self):
        """numpy's log of an object array calls this: an uninterpreted function of the number."""
        return wrap(smt.app("u!log", [self.t], smt.REAL))

    def exp(self):
        return wrap(smt.app("u!exp", [self.t], smt.REAL))

    def __floor__(self):
        return wrap(smt.floor(self.t))

    @property
    def denominator(self):
        raise Unsupported("denominator of a symbolic fraction")

    numerator = denominator


def div(a, b):
    for x, y, sw in ((a, b, False), (b, a, True)):
        if isinstance(y, np.ndarray):
            out = np.empty(y.shape, dtype=object)
            for i, v in np.ndenumerate(y):
                out[i] = div(v, x) if sw else div(x, v)
            return out
    ta, tb = term(a), term(b)
    if ta is None or tb is None:
        return NotImplemented
    if ENG.decide(smt.eq(tb, smt.lit(0))):
        raise ZeroDivisionError("division by zero")
    return wrap(smt.rdiv(ta, tb))


def _sgn(tb):
    """Decide the sign of a divisor; returns True if positive."""
    if ENG.decide(smt.eq(tb, smt.lit(0))):
        raise ZeroDivisionError("integer division or modulo by zero")
    return ENG.decide(smt.lt(smt.lit(0), tb))


def floordiv(a, b):
    ta, tb = term(a), term(b)
    if ta is None or tb is None:
        return NotImplemented
    pos = _sgn(tb)
    if REAL in (ta.sort, tb.sort):
        return wrap(smt.floor(smt.rdiv(ta, tb)))
    if pos:
        return wrap(smt.idiv(ta, tb))
    return wrap(smt.idiv(smt.neg(ta), smt.neg(tb)))


def mod(a, b):
    ta, tb = term(a), term(b)
    if ta is None or tb is None:
        return NotImplemented
    pos = _sgn(tb)
    if REAL in (ta.sort, tb.sort):
        q = smt.floor(smt.rdiv(ta, tb))
        return wrap(smt.sub(smt.to_real(ta), smt.mul(smt.to_real(tb), smt.to_real(q))))
    if pos:
        return wrap(smt.imod(ta, tb))
    return wrap(smt.neg(smt.imod(smt.neg(ta), smt.neg(tb))))


# Strings ------------------------------------------------------------------------------------------


class Opaque:
    """An arbitrary non-empty string about which only its two end characters may be inspected."""

    def __init__(self, name, length, first_not="", last_not=""):
        self.name, self.length = name, length
        self.first_not, self.last_not = first_not, last_not


class OpaqueChar:
    """A character known only to differ from the characters in `no`."""

    def __init__(self, no):
        self.no = no

    def __eq__(self, o):
        if isinstance(o, str):
            if len(o) != 1 or o in self.no:
                return False
            raise Unsupported("inspecting an opaque character")
        return self is o

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        raise Unsupported("hash of an opaque character")


class Rope:
    """A string made of concrete pieces, repeats ch^n with symbolic n >= 0, decimal numerals of
    symbolic integers, and opaque pieces."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if p[0] == "s":
                if not p[1]:
                    continue
                if out and out[-1][0] == "s":
                    out[-1] = ("s", out[-1][1] + p[1])
                    continue
            if p[0] == "r" and isinstance(p[2], int):
                if p[2] <= 0:
                    continue
                p = ("s", p[1] * p[2])
                if out and out[-1][0] == "s":
                    out[-1] = ("s", out[-1][1] + p[1])
                    continue
            if p[0] == "r" and out and out[-1][0] == "r" and out[-1][1] == p[1]:
                out[-1] = ("r", p[1], out[-1][2] + p[2])
                continue
            out.append(p)
        self.parts = out

    @staticmethod
    def make(parts):
        r = Rope(parts)
        if not r.parts:
            return ""
        if len(r.parts) == 1 and r.parts[0][0] == "s":
            return r.parts[0][1]
        return r

    def length(self):
        n = 0
        for p in self.parts:
            if p[0] == "s":
                n = n + len(p[1])
            elif p[0] == "r":
                n = n + p[2]
            elif p[0] == "o":
                n = n + p[1].length
            else:
                raise Unsupported("len of opaque text")
        return n

    def _front(self):
        """Make the first part a non-empty concrete/opaque one; returns parts."""
        parts = list(self.parts)
        while parts:
            p = parts[0]
            if p[0] == "r":
                if p[2] > 0:
                    return parts
                parts = parts[1:]
                continue
            return parts
        return parts

    def _back(self):
        parts = list(self.parts)
        while parts:
            p = parts[-1]
            if p[0] == "r":
                if p[2] > 0:
                    return parts
                parts = parts[:-1]
                continue
            return parts
        return parts

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported("string slice step")
            lo, hi = i.start, i.stop
            r = self
            if lo is not None and not (isinstance(lo, int) and lo == 0):
                if not isinstance(lo, int) or lo < 0:
                    return self._sym_slice(lo, hi)
                for _ in range(lo):
                    r = r._drop_first() if isinstance(r, Rope) else r[1:]
            if hi is not None:
                if lo not in (None, 0) or not isinstance(hi, int):
                    return self._sym_slice(lo, hi)
                if hi >= 0:
                    out = []
                    rest = r
                    for _ in range(hi):
                        parts = rest._front() if isinstance(rest, Rope) else rest
                        if not parts:
                            break
                        out.append(("s", rest[0]))
                        rest = rest[1:]
                    return Rope.make(out)
                for _ in range(-hi):
                    r = r._drop_last() if isinstance(r, Rope) else r[:-1]
            return r
        if not isinstance(i, int):
            raise Unsupported("symbolic string index")
        if i == 0:
            parts = self._front()
            if not parts:
                raise IndexError("string index out of range")
            p = parts[0]
            if p[0] == "s":
                return p[1][0]
            if p[0] == "r":
                return p[1]
            if p[0] == "o":
                return OpaqueChar(p[1].first_not)
            raise Unsupported("character of a numeral")
        if i == -1:
            parts = self._back()
            if not parts:
                raise IndexError("string index out of range")
            p = parts[-1]
            if p[0] == "s":
                return p[1][-1]
            if p[0] == "r":
                return p[1]
            if p[0] == "o":
                return OpaqueChar(p[1].last_not)
            raise Unsupported("character of a numeral")
        if i > 0:
            r = self[i:]
            return r[0]
        r = self[: i + 1]
        return r[-1]

    def _sym_slice(self, lo, hi):
        # supported: cut points that fall exactly between parts
        if lo is None and hi is not None and not isinstance(hi, int):
            cut, n = [], 0
            for k, p in enumerate(self.parts):
                if bool(hi == n):
                    return Rope.make(self.parts[:k])
                n = n + (len(p[1]) if p[0] == "s" else p[2])
        if hi is None and lo is not None and not isinstance(lo, int):
            n = 0
            for k, p in enumerate(self.parts):
                if bool(lo == n):
                    return Rope.make(self.parts[k:])
                n = n + (len(p[1]) if p[0] == "s" else p[2])
        raise Unsupported("symbolic string slice")

    def _drop_first(self):
        parts = self._front()
        if not parts:
            return ""
        p = parts[0]
        if p[0] == "s":
            return Rope.make([("s", p[1][1:])] + parts[1:])
        if p[0] == "r":
            return Rope.make([("r", p[1], p[2] - 1)] + parts[1:])
        raise Unsupported("slicing opaque text")

    def _drop_last(self):
        parts = self._back()
        if not parts:
            return ""
        p = parts[-1]
        if p[0] == "s":
            return Rope.make(parts[:-1] + [("s", p[1][:-1])])
        if p[0] == "r":
            return Rope.make(parts[:-1] + [("r", p[1], p[2] - 1)])
        raise Unsupported("slicing opaque text")

    def __add__(self, o):
        if isinstance(o, str):
            return Rope.make(self.parts + [("s", o)])
        if isinstance(o, Rope):
            return Rope.make(self.parts + o.parts)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return Rope.make([("s", o)] + self.parts)
        return NotImplemented

    def __mul__(self, n):
        return rope_repeat(self, n)

    __rmul__ = __mul__

    def eq_str(self, c):
        r = self
        while True:
            if isinstance(r, str):
                return r == c
            p = r.parts[0]
            if p[0] == "s":
                if not c.startswith(p[1]):
                    return False
                c = c[len(p[1]) :]
                r = Rope.make(r.parts[1:])
            elif p[0] == "r":
                if p[2] > 0:
                    if not c or c[0] != p[1]:
                        return False
                    c = c[1:]
                    r = r._drop_first()
                else:
                    r = Rope.make(r.parts[1:])
            else:
                raise Unsupported("comparing opaque text")

    def __eq__(self, o):
        if isinstance(o, str):
            return self.eq_str(o)
        if isinstance(o, Rope):
            return rope_eq(list(self.parts), list(o.parts))
        return False

    def __ne__(self, o):
        r = self == o
        return not_(r)

    def __hash__(self):
        raise Unsupported("hash of a symbolic string")

    def __contains__(self, sub):
        if not isinstance(sub, str) or len(sub) != 1:
            raise Unsupported("substring test")
        for p in self.parts:
            if p[0] == "s" and sub in p[1]:
                return True
            if p[0] == "r" and p[1] == sub and p[2] > 0:
                return True
            if p[0] == "o" and sub not in p[1].first_not:
                raise Unsupported("substring test on opaque text")
        return False

    def split(self, sep=None):
        if sep is None or len(sep) != 1:
            raise Unsupported("split")
        out, cur = [], []
        for p in self.parts:
            if p[0] == "s":
                pieces = p[1].split(sep)
                cur.append(("s", pieces[0]))
                for piece in pieces[1:]:
                    out.append(Rope.make(cur))
                    cur = [("s", piece)]
            elif p[0] == "r" and p[1] == sep:
                raise Unsupported("split on a repeated separator")
            elif p[0] == "o":
                raise Unsupported("split of opaque text")
            else:
                cur.append(p)
        out.append(Rope.make(cur))
        return out

    def rsplit(self, sep=None):
        return self.split(sep)

    def _map(self, f):
        if any(p[0] in "od" and p[0] == "o" for p in self.parts):
            raise Unsupported("case mapping of opaque text")
        return Rope.make(
            [(p[0], f(p[1])) + tuple(p[2:]) if p[0] in "sr" else p for p in self.parts]
        )

    def lower(self):
        return self._map(str.lower)

    def upper(self):
        return self._map(str.upper)

    def startswith(self, s):
        r = self
        for ch in s:
            parts = r._front() if isinstance(r, Rope) else r
            if not parts or not (r[0] == ch):
                return False
            r = r[1:]
        return True

    def endswith(self, s):
        r = self
        for ch in reversed(s):
            parts = r._back() if isinstance(r, Rope) else r
            if not parts or not (r[-1] == ch):
                return False
            r = r[:-1]
        return True

    def lstrip(self, chars):
        r = self
        parts = list(r.parts)
        while parts:
            p = parts[0]
            if p[0] == "r":
                if p[1] in chars or not p[2] > 0:
                    parts = parts[1:]
                    continue
                break
            if p[0] == "s":
                q = p[1].lstrip(chars)
                if q:
                    parts[0] = ("s", q)
                    break
                parts = parts[1:]
                continue
            if p[0] == "o" and all(c in p[1].first_not for c in chars):
                break
            raise Unsupported("lstrip")
        return Rope.make(parts)

    def rstrip(self, chars):
        parts = list(self.parts)
        while parts:
            p = parts[-1]
            if p[0] == "r":
                if p[1] in chars or not p[2] > 0:
                    parts = parts[:-1]
                    continue
                break
            if p[0] == "s":
                q = p[1].rstrip(chars)
                if q:
                    parts[-1] = ("s", q)
                    break
                parts = parts[:-1]
                continue
            if p[0] == "o" and all(c in p[1].last_not for c in chars):
                break
            raise Unsupported("rstrip")
        return Rope.make(parts)

    def count(self, ch):
        if len(ch) != 1:
            raise Unsupported("count")
        n = 0
        for p in self.parts:
            if p[0] == "s":
                n = n + p[1].count(ch)
            elif p[0] == "r":
                if p[1] == ch:
                    n = n + p[2]
            else:
                raise Unsupported("count on opaque text")
        return n

    def replace(self, a, b, *rest):
        if len(a) == 1 and len(b) == 1 and not rest:
            return self._map(lambda t: t.replace(a, b))
        raise Unsupported("replace in symbolic text")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"str.{name} on symbolic text")

    def __str__(self):
        return MARK

    __repr__ = __str__

    def __format__(self, spec):
        return MARK

    def __deepcopy__(self, memo):
        return self


def rope_eq(a, b):
    """Equality of two ropes, deciding the vanishing of repeats where the shapes differ."""
    conds = True
    while True:
        if not a and not b:
            return conds
        if len(a) == len(b) and all(
            p[0] == q[0]
            and (
                (p[0] == "s" and p[1] == q[1])
                or (p[0] == "o" and p[1] is q[1])
                or (p[0] == "r" and p[1] == q[1])
                or p[0] == "d"
            )
            for p, q in zip(a, b)
        ):
            for p, q in zip(a, b):
                if p[0] == "r":
                    conds = and_(conds, p[2] == q[2])
                elif p[0] == "d":
                    conds = and_(conds, p[1] == q[1])
            return conds
        dropped = False
        for side in (a, b):
            for i, p in enumerate(side):
                if p[0] == "r":
                    if not p[2] > 0:
                        del side[i]
                        dropped = True
                        break
            if dropped:
                break
        if dropped:
            continue
        if not a or not b:
            return False
        p, q = a[0], b[0]
        if p[0] == "s" and q[0] == "s":
            n = min(len(p[1]), len(q[1]))
            if p[1][:n] != q[1][:n]:
                return False
            a[0], b[0] = ("s", p[1][n:]), ("s", q[1][n:])
            if not a[0][1]:
                a.pop(0)
            if not b[0][1]:
                b.pop(0)
            continue
        if p[0] == "o" and q[0] == "o" and p[1] is q[1]:
            a.pop(0)
            b.pop(0)
            continue
        if p[0] == "r" and q[0] == "r" and p[1] == q[1]:
            if p[2] == q[2]:
                a.pop(0)
                b.pop(0)
                continue
        if p[0] in "sr" and q[0] in "sr":
            pc = p[1][0]
            qc = q[1][0]
            if pc != qc:
                return False
            for side, z in ((a, p), (b, q)):
                if z[0] == "s":
                    side[0] = ("s", z[1][1:])
                    if not z[1][1:]:
                        side.pop(0)
                else:
                    side[0] = ("r", z[1], z[2] - 1)
            continue
        if p[0] == "o" and q[0] in "sr" and q[1][0] in p[1].first_not:
            return False
        if q[0] == "o" and p[0] in "sr" and p[1][0] in q[1].first_not:
            return False
        raise Unsupported("comparing symbolic strings")


def rope_repeat(s, n):
    if isinstance(s, str):
        if len(s) == 0:
            return ""
        if len(s) == 1:
            return Rope.make([("r", s, maximum(n, 0))])
    raise Unsupported("repeating text")


# Logic that works on proxies and on ordinary values ------------------------------------------------


def and_(*xs):
    ts = []
    for x in xs:
        if isinstance(x, (SymBool,)):
            ts.append(x.t)
        elif isinstance(x, SymNum):
            ts.append(_b(x))
        elif not x:
            return False
    return wrap(smt.and_(*ts)) if ts else True


def or_(*xs):
    ts = []
    for x in xs:
        if isinstance(x, (SymBool,)):
            ts.append(x.t)
        elif isinstance(x, SymNum):
            ts.append(_b(x))
        elif x:
            return True
    return wrap(smt.or_(*ts)) if ts else False


def not_(x):
    if isinstance(x, SymBool):
        return wrap(smt.not_(x.t))
    return not x


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return and_(implies(a, b), implies(b, a))


def ite(c, a, b):
    if isinstance(c, SymBool):
        return wrap(smt.ite(c.t, term(a), term(b)))
    return a if c else b


def minimum(a, b):
    return ite(a <= b, a, b)


def maximum(a, b):
    return ite(a >= b, a, b)
