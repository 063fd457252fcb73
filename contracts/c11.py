"""C11: the candidate chord ranges: exactly the admissible ones, each once, with its probability."""
from common import *
from fractions import Fraction
import heapq as real_heapq
import math
import numpy as np
from pyvc.instrument import LoopContract
from pyvc.smt import BOOL, INT, REAL
from pyvc.sym import Unsupported
import harmonic_inference.models.joint_model as jm

F = "harmonic_inference.models.joint_model:HarmonicInferenceModel."
KEY = "models.joint_model.HarmonicInferenceModel.get_chord_ranges#"


# ---- abstract arrays (any length) --------------------------------------------------------------------
class Arr:
    def __init__(self, w, n, fn, name=None, lo=0):
        self.w, self.n, self.fn, self.name, self.lo = w, n, fn, name, lo

    def vc_len(self):
        return self.n

    def vc_at(self, k):
        return self.fn(k)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None or i.stop is not None:
                raise Unsupported("slice of an abstract array")
            a = 0 if i.start is None else i.start
            return Arr(self.w, self.n - a, lambda k: self.fn(a + k), self.name, self.lo + a)
        if isinstance(i, int) and i < 0:
            raise Unsupported("negative index")
        self.w.x.check("index inside the array", self.w.x.and_(i >= 0, i < self.n))
        return self.fn(i)

    def __setitem__(self, i, v):
        x, old = self.w.x, self.fn
        self.fn = lambda k: x.ite(k == i, v, old(k))

    def __eq__(self, v):
        return Arr(self.w, self.n, lambda k: self.fn(k) == v)

    __hash__ = None

    def __rsub__(self, v):
        return Arr(self.w, self.n, lambda k: v - self.fn(k))

    def vc_set(self):
        return GhostDistinct(self.w, self.name, self.lo)

    def __iter__(self):
        raise Unsupported("iterating an abstract array")

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported("array." + n)


class GhostDistinct:
    """The set of values from index lo on."""

    def __init__(self, w, name, lo, minus=False):
        self.w, self.name, self.lo, self.minus = w, name, lo, minus

    def __sub__(self, o):
        if o != {-1}:
            raise Unsupported("set difference")
        return GhostDistinct(self.w, self.name, self.lo, True)

    def vc_len(self):
        if not self.minus or self.name is None:
            raise Unsupported("size of a set")
        return self.w.distinct(self.name, self.lo)


class FakeNp:
    def __init__(self, w):
        self.w = w

    def __getattr__(self, n):
        if n in ("bool_", "float64", "int64", "array", "errstate"):
            return getattr(np, n)
        raise Unsupported("numpy." + n + " on abstract arrays")

    def roll(self, a, k):
        if k != 1:
            raise Unsupported("roll")
        x = self.w.x
        return Arr(a.w, a.n, lambda i: x.ite(i == 0, a.fn(a.n - 1), a.fn(i - 1)))

    def log(self, a):
        return Arr(a.w, a.n, lambda i: self.w.log(a.fn(i)))

    def full(self, n, v, dtype=None):
        return Arr(self.w, n, lambda i: v)

    def zeros(self, n, dtype=None):
        return Arr(self.w, n, lambda i: False if dtype is bool else 0)


class Queue:
    """The queue of starting points: any content; whether the tracked start j is in it is known."""

    def __init__(self, w):
        self.w = w

    def __bool__(self):
        x, g = self.w.x, self.w
        ne = x.fresh_bool("queue not empty")
        x.assume(x.implies(g.q, ne))
        return bool(ne)

    def vc_len(self):
        raise Unsupported("length of the queue")

    def pop(self):
        x, g = self.w.x, self.w
        s = x.fresh_int("start")
        x.assume(x.and_(s >= 0, s < g.n))
        x.assume(x.implies(s == g.j, g.q))
        g.q, g.d = x.and_(g.q, x.not_(s == g.j)), x.or_(g.d, s == g.j)
        g.now = s
        return s

    def push(self, v):
        x, g = self.w.x, self.w
        x.check("queued starts are inputs", x.and_(v >= 0, v < g.n))
        x.check("no start is queued twice", x.implies(v == g.j, x.and_(x.not_(g.q), x.not_(g.d))))
        g.q = x.or_(g.q, v == g.j)


class FakeHeapq:
    def __getattr__(self, n):
        raise Unsupported("heapq." + n)

    def heapify(self, h):
        if isinstance(h, Queue):
            raise Unsupported("heapify")
        real_heapq.heapify(h)

    def heappop(self, h):
        return h.pop() if isinstance(h, Queue) else real_heapq.heappop(h)

    def heappush(self, h, v):
        return h.push(v) if isinstance(h, Queue) else real_heapq.heappush(h, v)


class Ranges:
    """The emitted ranges so far."""

    def __init__(self, w):
        self.w = w
        self.pending = None

    def append(self, r):
        x, g = self.w.x, self.w
        a, b = r
        x.check("ranges start at the current start", a == g.now)
        x.check("ranges are not empty and inside the piece", x.and_(a < b, b <= g.n))
        if g.pending is not None:
            raise Unsupported("two ranges before a probability")
        g.pending = (a, b)
        g.cnt = g.cnt + x.ite(x.and_(a == g.j, b == g.e), 1, 0)
        g.ends = x.or_(g.ends, x.and_(b == g.j, b < g.n))

    def __iter__(self):
        # an arbitrary one of them
        x, g = self.w.x, self.w
        a = x.fresh_int("a")
        x.assume(x.and_(a >= 0, a < g.n))
        g.generic = a
        yield (a, x.fresh_int("b"))

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported("list." + n)


class Probs:
    def __init__(self, w):
        self.w = w

    def append(self, v):
        x, g = self.w.x, self.w
        if g.pending is None:
            raise Unsupported("probability before its range")
        a, b = g.pending
        g.pending = None
        want = x.ite(b == g.n, g.S(a, b), g.S(a, b) + g.log(g.p(b)))
        x.check("probability of a range", v == want)

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported("list." + n)


class SeenSet:
    """The forced labels met so far: none, or one."""

    def __init__(self, w, cur):
        self.w, self.cur, self.size = w, cur, w.x.ite(cur == -1, 0, 1)

    def add(self, v):
        x = self.w.x
        self.size = x.ite(self.cur == -1, 1, x.ite(self.cur == v, self.size, self.size + 1))
        self.cur = v

    def vc_len(self):
        return self.size

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported("set." + n)


def seen(x, v):
    """(value, size) of a seen-set, real or ghost."""
    if isinstance(v, SeenSet):
        return v.cur, v.size
    if isinstance(v, set) and not v:
        return -1, 0
    raise Unsupported("set of forced labels")


class World:
    """A piece of any length with any change probabilities, durations, forced labels and thresholds."""

    def __init__(self, x):
        self.x = x
        self.n = x.int("inputs", 1)
        self.lo, self.hi = x.real("min change"), x.real("max no change")
        x.assume(self.lo <= self.hi)
        self.maxlen = x.real("max length")
        self.j = x.int("tracked start")
        self.e = x.int("tracked end")
        x.assume(x.and_(self.j >= 0, self.j < self.n, self.e > self.j, self.e <= self.n))
        self.q = self.d = self.ends = False
        self.cnt = 0
        self.pending = None
        self.now = None
        self.generic = None

    def p(self, i):
        return self.x.ufun("p", REAL, i)

    def log(self, v):
        return self.x.ufun("log", REAL, v)

    def dur(self, i):
        d = self.x.ufun("dur", REAL, i)
        return d

    def fc(self, i):
        return self.x.ufun("forced chord", INT, i)

    def fk(self, i):
        return self.x.ufun("forced key", INT, i)

    def distinct(self, name, lo):
        return self.x.ufun("distinct " + name, INT, lo)

    # ghost functions: running values of a range from s up to (not including) index i
    def S(self, s, i):
        return self.x.ufun("S", REAL, s, i)

    def D(self, s, i):
        return self.x.ufun("D", REAL, s, i)

    def C(self, s, i):
        return self.x.ufun("C", INT, s, i)

    def K(self, s, i):
        return self.x.ufun("K", INT, s, i)

    def reach(self, s, i):
        return self.x.ufun("reach", BOOL, s, i)

    def valid(self, i):
        return self.x.not_(self.dur(i - 1) == 0)

    def clash(self, f, seen_, i):
        x = self.x
        return x.and_(x.not_(f(i - 1) == -1), x.not_(seen_ == -1), x.not_(seen_ == f(i - 1)))

    def blocked(self, s, i):
        """A range from s cannot even end at i."""
        x = self.x
        return x.or_(
            self.clash(self.fc, self.C(s, i), i), self.clash(self.fk, self.K(s, i), i),
            x.and_(self.valid(i), self.D(s, i) > self.maxlen),
        )

    def stop(self, s, i):
        """No range from s goes beyond i."""
        x = self.x
        return x.or_(self.blocked(s, i), x.and_(self.valid(i), self.p(i) > self.hi))

    def begin(self, s):
        """Definitions at the start of a range."""
        x = self.x
        x.assume(self.S(s, s + 1) == 0)
        x.assume(self.D(s, s) == 0)
        x.assume(self.C(s, s + 1) == -1)
        x.assume(self.K(s, s + 1) == -1)
        x.assume(self.reach(s, s + 1))

    def step(self, s, i):
        """Definitions, one step further."""
        x = self.x
        v = self.valid(i)
        x.assume(self.D(s, i) == self.D(s, i - 1) + self.dur(i - 1))
        x.assume(self.S(s, i + 1) == self.S(s, i) + x.ite(v, self.log(1 - self.p(i)), 0))
        for g, f in ((self.C, self.fc), (self.K, self.fk)):
            x.assume(g(s, i + 1) == x.ite(x.not_(f(i - 1) == -1), f(i - 1), g(s, i)))
        x.assume(x.iff(self.reach(s, i + 1), x.and_(self.reach(s, i), x.not_(self.stop(s, i)))))
        # reach is monotone by definition: used at the tracked end
        x.assume(x.implies(x.and_(self.reach(s, self.e), i + 1 <= self.e), self.reach(s, i + 1)))

    def admissible(self, s, e):
        x = self.x
        return x.and_(
            self.reach(s, e),
            x.ite(
                e == self.n,
                x.and_(self.distinct("fc", s) <= 1, self.distinct("fk", s) <= 1),
                x.and_(self.valid(e), x.not_(self.blocked(s, e)), self.p(e) >= self.lo),
            ),
        )

    def havoc(self, processed=True):
        x = self.x
        self.q, self.ends = x.fresh_bool("queued"), x.fresh_bool("is an end")
        if processed:
            self.d = x.fresh_bool("processed")
        self.cnt = x.fresh_int("count")
        self.marks = x.fresh_int("marks version")
        v = self.marks
        return Arr(self, self.n, lambda i: x.ufun("marked", BOOL, v, i))


def tracked(x, w, in_starts):
    g = w
    return [
        ("a start is marked exactly when queued or processed", x.iff(in_starts.fn(g.j), x.or_(g.q, g.d))),
        ("never both queued and processed", x.not_(x.and_(g.q, g.d))),
        ("the starts are 0 and the ends of ranges", x.iff(in_starts.fn(g.j), x.or_(g.j == 0, g.ends))),
    ]


class Outer(LoopContract):
    needs = ("starts", "in_starts", "chord_ranges", "range_log_probs")

    def __init__(self, w):
        self.w = w

    def havoc(self, x, L):
        w = self.w
        marks = w.havoc()
        w.pending = None
        return {"starts": Queue(w), "in_starts": marks, "chord_ranges": Ranges(w), "range_log_probs": Probs(w)}

    def inv(self, x, L):
        w = self.w
        first = not isinstance(L["starts"], Queue)
        if first:
            if L["starts"] != [0] or L["chord_ranges"] != [] or L["range_log_probs"] != []:
                raise Unsupported("initial queue")
            w.q = w.j == 0
        if w.pending is not None:
            x.check("one probability per range", False)
        return tracked(x, w, L["in_starts"]) + [
            ("each admissible range of a processed start exactly once", w.cnt == x.ite(x.and_(w.d, w.admissible(w.j, w.e)), 1, 0))
        ]


class Inner(LoopContract):
    needs = ("running_log_prob", "running_duration", "reached_end", "forced_chords", "forced_keys", "start", "in_starts")

    def __init__(self, w):
        self.w = w
        self.cnt0 = None

    def havoc(self, x, L):
        w = self.w
        marks = w.havoc(processed=False)
        w.pending = None
        s = L["start"]
        i = s + 1 + L["_k"]
        w.step(s, i)
        return {
            "running_log_prob": w.S(s, i),
            "running_duration": w.D(s, i - 1),
            "reached_end": True,
            "forced_chords": SeenSet(w, w.C(s, i)),
            "forced_keys": SeenSet(w, w.K(s, i)),
            "in_starts": marks,
            "chord_ranges": L["chord_ranges"],
            "range_log_probs": L["range_log_probs"],
            "starts": L["starts"],
        }

    def inv(self, x, L):
        w = self.w
        s = L["start"]
        i = s + 1 + L["_k"]
        if L["_k"] is 0:  # noqa: F632 -- entry
            w.begin(s)
            self.d0 = w.d
        if w.pending is not None:
            x.check("one probability per range", False)
        c, nc = seen(x, L["forced_chords"])
        k, nk = seen(x, L["forced_keys"])
        me = s == w.j
        done = x.ite(
            me,
            x.ite(x.and_(w.e < i, w.admissible(w.j, w.e), w.e < w.n), 1, 0),
            x.ite(x.and_(w.d, w.admissible(w.j, w.e)), 1, 0),
        )
        return tracked(x, w, L["in_starts"]) + [
            ("probability so far", L["running_log_prob"] == w.S(s, i)),
            ("duration so far", L["running_duration"] == w.D(s, i - 1)),
            ("forced chords so far", x.and_(c == w.C(s, i), nc == x.ite(w.C(s, i) == -1, 0, 1))),
            ("forced keys so far", x.and_(k == w.K(s, i), nk == x.ite(w.K(s, i) == -1, 0, 1))),
            ("not stopped yet", x.and_(w.reach(s, i), L["reached_end"] is True)),
            ("admissible ranges so far, each once", w.cnt == done),
        ]


def model(**k):
    m = object.__new__(jm.HarmonicInferenceModel)
    for a, v in k.items():
        setattr(m, a, v)
    return m


@harness([F + "get_chord_ranges"])
def ranges_contract(x):
    """Pieces of any length: from 0 and from every end of a range, exactly the admissible ranges, each once;
    probability = no change at every onset inside, change at the end; rejoin correction of its start."""
    if not x.symbolic or x.mode_unroll is not None:
        return ranges_reference(x)
    w = World(x)
    m = model(
        duration_cache=Arr(w, w.n, w.dur),
        forced_chord_ids=Arr(w, w.n, w.fc, "fc"),
        forced_key_ids=Arr(w, w.n, w.fk, "fk"),
        min_chord_change_prob=w.lo,
        max_no_chord_change_prob=w.hi,
        max_chord_length=w.maxlen,
    )
    x.replace(jm, "np", FakeNp(w), "numpy roll, log, full, comparison and indexing of arrays: assumed elementwise meaning")
    x.replace(jm, "heapq", FakeHeapq(), "heapq: pop returns an element of the queue and removes it")
    x.loop(KEY + "0", Outer(w))
    x.loop(KEY + "1", Inner(w))
    r, lp, rejoin = x.returns("returns", x.call(m.get_chord_ranges, Arr(w, w.n, w.p)))
    if not isinstance(r, Ranges) or not isinstance(lp, Probs) or len(rejoin) != 1:
        raise Unsupported("shape of the result")
    x.check("the queue is worked off", x.not_(w.q))
    x.check("every start is processed: 0 and each end of a range", x.iff(w.d, x.or_(w.j == 0, w.ends)))
    x.check("the admissible ranges, each once", w.cnt == x.ite(x.and_(w.d, w.admissible(w.j, w.e)), 1, 0))
    x.check("correction for a rejoin", rejoin[0] == w.log(1 - w.p(w.generic)) - w.log(w.p(w.generic)))


# ---- reference ---------------------------------------------------------------------------------------
def reference(p, dur, fc, fk, lo, hi, maxlen, log, add):
    """All admissible ranges from 0 on, with log-probabilities."""
    n = len(p)
    out, todo, done = {}, [0], set()
    while todo:
        s = todo.pop()
        if s in done:
            continue
        done.add(s)
        lp, ended = 0, False
        for i in range(s + 1, n):
            if len({c for c in fc[s:i] if c != -1}) > 1 or len({c for c in fk[s:i] if c != -1}) > 1:
                ended = True
                break
            if dur[i - 1] == 0:
                continue
            if sum(dur[s:i]) > maxlen:
                ended = True
                break
            if p[i] >= lo:
                out[(s, i)] = lp + log(p[i])
                todo.append(i)
                if p[i] > hi:
                    ended = True
                    break
            lp = lp + log(1 - p[i])
        if not ended and len({c for c in fc[s:] if c != -1}) <= 1 and len({c for c in fk[s:] if c != -1}) <= 1:
            out[(s, n)] = lp
    return out


def ranges_reference(x):
    sym_ = x.symbolic
    n = x.choice("inputs", [1, 2, 3] if sym_ else [1, 2, 3, 4, 6, 9, 14])
    dur = [Fraction(x.choice(f"dur {i}", [0, 1, 4] if sym_ else [0, 0, 1, 2, 4, 8, 12]), 4) for i in range(n)]
    if sym_:
        p = [x.real(f"p {i}") for i in range(n)]
        for q in p:
            x.assume(x.and_(q > 0, q < 1))
        lo, hi = x.real("min change"), x.real("max no change")
        x.assume(lo <= hi)
        fc = fk = [-1] * n
        log = lambda v: v.log()  # noqa: E731
    else:
        p = [x.choice(f"p {i}", [0.0, 0.1, 0.2, 0.25, 0.3, 0.4, 0.45, 0.5, 0.9, 1.0]) for i in range(n)]
        lo, hi = x.choice("thresholds", [(0.25, 0.45), (0.2, 0.2), (0.3, 0.9), (0.0, 1.0), (0.5, 0.5)])
        fc, fk = [], []
        for name, f in (("chord", fc), ("key", fk)):
            forced = x.choice("forced " + name, [False, False, True])
            for i in range(n):
                if i and f[-1] != -1 and x.choice(f"{name} on {i}", [True, False]):
                    f.append(f[-1])
                else:
                    f.append(x.choice(f"{name} {i}", [-1, -1, 3, 5]) if forced else -1)
        log = lambda v: math.log(v) if v > 0 else -math.inf  # noqa: E731
    maxlen = x.choice("max length", [Fraction(1), Fraction(2), Fraction(8)])
    m = model(
        duration_cache=np.array(dur),
        forced_chord_ids=np.array(fc),
        forced_key_ids=np.array(fk),
        min_chord_change_prob=lo,
        max_no_chord_change_prob=hi,
        max_chord_length=maxlen,
    )
    with np.errstate(all="ignore"):
        r, lp, rejoin = x.returns("returns", x.call(m.get_chord_ranges, np.array(p)))
    want = reference(p, dur, fc, fk, lo, hi, maxlen, log, None)
    r = [(int(a), int(b)) for a, b in r]
    x.check("one probability and one rejoin correction per range", len(r) == len(lp) == len(rejoin))
    x.check("no range twice", len(set(r)) == len(r))
    x.check("exactly the admissible ranges", set(r) == set(want))
    for k, v, q in zip(r, lp, rejoin):
        if sym_:
            x.check("probability", v == want[k])
            x.check("rejoin correction", q == log(1 - p[k[0]]) - log(p[k[0]]))
        else:
            x.check("probability", close(v, want[k]))
            if k[0] != 0:
                x.check("rejoin correction", close(q, log(1 - p[k[0]]) - log(p[k[0]])))


def close(a, b):
    return a == b or (math.isfinite(a) and math.isfinite(b) and abs(a - b) < 1e-9)


@harness([F + "_apply_forced_chord_changes"], kind="bounded", bound="pieces of at most 14 inputs")
def forced_changes(x):
    """Forced changes get probability one, forced non-changes zero, everything else is kept; consequently every
    range is cut at the former and none at the latter."""
    n = x.choice("inputs", [1, 2, 5] if x.symbolic else [1, 2, 5, 14])
    p = np.array([0.3 + 0.01 * i for i in range(n)])
    kind = [x.choice(f"force {i}", [0, 1, 2, 3]) if i else 0 for i in range(n)]
    chord, off, key = ({i for i in range(n) if kind[i] == v} for v in (1, 2, 3))
    on = chord | key  # every key change is a chord change
    m = model(forced_chord_changes=chord, forced_chord_non_changes=off, forced_key_changes=key, forced_key_non_changes=set())
    q = p.copy()
    x.returns("returns", x.call(m._apply_forced_chord_changes, q))
    x.check("forced", all(q[i] == 1 for i in on) and all(q[i] == 0 for i in off))
    x.check("others kept", all(q[i] == p[i] for i in range(n) if kind[i] == 0))
    m.duration_cache = np.array([Fraction(1, 4)] * n)
    m.forced_chord_ids = m.forced_key_ids = np.full(n, -1)
    m.min_chord_change_prob, m.max_no_chord_change_prob, m.max_chord_length = 0.25, 0.45, Fraction(100)
    with np.errstate(all="ignore"):
        r = x.returns("ranges return", x.call(m.get_chord_ranges, q))[0]
    x.check("no range crosses a forced change", all(not any(a < i < b for i in on) for a, b in r))
    x.check("no range ends at a forced non-change", all(b not in off for a, b in r))
