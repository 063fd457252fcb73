"""C09: the search beams keep exactly the best states, one per recent history in the hashed variant."""
from common import *
import heapq as real_heapq
import random
from pyvc.instrument import LoopContract
from pyvc.sym import PathEnd, Unsupported
import harmonic_inference.utils.beam_search_utils as bs
from harmonic_inference.utils.beam_search_utils import Beam, HashedBeam, State

BS = "harmonic_inference.utils.beam_search_utils:"
FIX = "utils.beam_search_utils.HashedBeam._fix_beam_min#0"


class AbsHeap:
    """Assumed contract of the standard library's heap, for heaps of any size: some elements known by
    identity, plus an anonymous remainder, of which only 'not below the top' is known until popped."""

    def __init__(self, x, known, rest, make_other):
        self.x, self.known, self.rest, self.make = x, list(known), rest, make_other
        self.top = None
        self.popped = []
        self._settle()

    def size(self):
        return len(self.known) + self.rest

    vc_len = size

    def _settle(self, at_least=None):
        """Some element is on top: not larger than any other."""
        x = self.x
        self.top = None
        if len(self.known) == 0 and not self.rest > 0:
            return
        opts = list(self.known) + ["other"]
        i = x.choice("top", range(len(opts)))
        if i < len(self.known):
            t = self.known[i]
        else:
            x.assume(self.rest > 0)
            t = self.make(self)
            self.known.append(t)
            self.rest = self.rest - 1
        if at_least is not None:
            x.assume(t.log_prob >= at_least)
        for k in self.known:
            if k is not t:
                x.assume(t.log_prob <= k.log_prob)
        self.top = t

    def __getitem__(self, i):
        if i != 0 or isinstance(i, slice):
            raise Unsupported("heap element other than the top")
        if self.top is None:
            raise IndexError("list index out of range")
        return self.top

    def push(self, s):
        self.known.append(s)
        if self.top is None or s < self.top:
            self.top = s

    def pop(self):
        if self.top is None:
            raise IndexError("index out of range")
        t = self.top
        self.known = [k for k in self.known if k is not t]
        self.popped.append(t)
        self._settle(t.log_prob)
        return t

    def pushpop(self, s):
        if self.top is not None and self.top < s:
            t = self.top
            self.known = [k for k in self.known if k is not t] + [s]
            self.popped.append(t)
            self._settle(t.log_prob)
            return t
        return s

    def replace(self, s):
        t = self.pop()
        self.push(s)
        return t

    def __iter__(self):
        return AbsIter(self)

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported("list method on a heap")


class AbsIter:
    def __init__(self, h):
        self.h = h

    def __iter__(self):
        return self

    def __next__(self):
        raise Unsupported("iterating a heap of unknown size")

    def vc_max(self):
        """Assumed contract of max(): an element, none larger."""
        x, h = self.h.x, self.h
        opts = list(h.known) + ["other"]
        i = x.choice("max", range(len(opts)))
        if i < len(h.known):
            m = h.known[i]
        else:
            x.assume(h.rest > 0)
            m = h.make(h)
            if h.top is not None:
                x.assume(h.top.log_prob <= m.log_prob)
            h.known.append(m)
            h.rest = h.rest - 1
        for k in h.known:
            x.assume(k.log_prob <= m.log_prob)
        return m


class HeapQ:
    """Stands for the heapq module."""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("heapq." + n)

    @staticmethod
    def _pick(h, name, *a):
        if isinstance(h, AbsHeap):
            return getattr(h, name)(*a)
        return getattr(real_heapq, "heap" + name)(h, *a)

    def heappush(self, h, s):
        return self._pick(h, "push", s)

    def heappop(self, h):
        return self._pick(h, "pop")

    def heappushpop(self, h, s):
        return self._pick(h, "pushpop", s)

    def heapreplace(self, h, s):
        return self._pick(h, "replace", s)


WHY = "heapq and max(): assumed contract of the standard library (top is a minimum, push/pop change exactly one element)"


def state(lp, h=None):
    s = State(log_prob=lp)
    if h is not None:
        s.hash_tuple = h
    return s


def abs_beam(x):
    """A beam in any reachable shape: an arbitrary member s, any number of others."""
    cap = x.int("capacity", 1)
    b = Beam(cap)
    n = x.int("others", 0)
    has_s = x.choice("tracked member", [True, False])
    s = state(x.real("s")) if has_s else None
    heap = AbsHeap(x, [s] if has_s else [], n, lambda h: state(x.fresh_real("o")))
    b.beam = heap
    x.replace(bs, "heapq", HeapQ(), WHY)
    return b, cap, s, heap


@harness([BS + "Beam.add", BS + "Beam.fits_in_beam", BS + "Beam.__len__"])
def beam_add(x):
    """Beam of any size: grows below capacity (or when forced), at capacity replaces its worst state exactly
    by a strictly better one; everything ever turned away is no better than anything kept."""
    if not x.symbolic or x.mode_unroll is not None:
        return history(x, Beam, False)
    b, cap, s, heap = abs_beam(x)
    size0 = heap.size()
    top0 = heap.top
    # history so far: d = any state ever turned away or dropped (then the beam is full)
    d = x.real("turned away earlier")
    had = x.choice("something was turned away", [False, True])
    forced_over = x.choice("over capacity by force", [False, True])
    if not forced_over:
        x.assume(size0 <= cap)
    if had:
        x.assume(size0 >= cap)
        x.assume(d <= top0.log_prob)
    new = state(x.real("new"))
    force = x.choice("force", [False, True])
    full = size0 >= cap
    fits = x.returns("fits_in_beam returns", x.call(b.fits_in_beam, new))
    want = x.or_(x.not_(full), False if top0 is None else top0.log_prob < new.log_prob)
    x.check("fits exactly below capacity or when better than the worst", x.iff(fits, want))
    added = x.returns("add returns", x.call(b.add, new, force=force))
    x.check("reports whether it was added", x.iff(added, x.or_(force, want)))
    h = b.beam
    x.check("still the heap", h is heap)
    inside = any(k is new for k in h.known)
    x.check("added exactly when reported", x.iff(added, inside))
    x.check("size reported", b.__len__() == h.size())
    grew = x.and_(added, x.or_(force, x.not_(full)))
    x.check("size", h.size() == x.ite(grew, size0 + 1, size0))
    if s is not None:
        gone = not any(k is s for k in h.known)
        x.check("only the worst state leaves", x.implies(gone, x.and_(s is top0, s.log_prob < new.log_prob)))
        x.check("kept when nothing has to leave", x.implies(x.or_(grew, x.not_(added)), not gone))
        if not gone:
            x.check("the top is the worst", h.top.log_prob <= s.log_prob)
    if had and not force:
        x.check("what was turned away is no better than what is kept", d <= h.top.log_prob)
    if not added:
        x.check("turned away: no better than what is kept", new.log_prob <= h.top.log_prob)
    for p in h.popped:
        x.check("dropped: no better than what is kept", p.log_prob <= h.top.log_prob)
        x.check("something is dropped only at capacity", x.and_(full, not force))


@harness([BS + "Beam.get_top_state", BS + "Beam.__iter__", BS + "Beam.empty"])
def beam_top(x):
    """The top state is a kept state no kept state beats; None when empty; empty() empties."""
    if not x.symbolic or x.mode_unroll is not None:
        return history(x, Beam, False)
    b, cap, s, heap = abs_beam(x)
    if not heap.size() > 0:
        r = x.returns("returns", x.call(b.get_top_state))
        x.check("nothing in an empty beam", r is None)
        return
    r = x.returns("returns", x.call(b.get_top_state))
    x.check("is a kept state", any(k is r for k in heap.known))
    if s is not None:
        x.check("no kept state is better", s.log_prob <= r.log_prob)
    x.returns("empty returns", x.call(b.empty))
    x.check("empty afterwards", len(b.beam) == 0 and x.call(b.get_top_state).value is None)


# ---- hashed ----------------------------------------------------------------------------------------
class AbsDict:
    """The hash table of a hashed beam of any size: known entries plus an anonymous remainder of entries
    under other hashes."""

    def __init__(self, x, known, rest):
        self.x, self.d, self.rest = x, dict(known), rest

    def vc_len(self):
        return len(self.d) + self.rest

    def __contains__(self, h):
        return h in self.d

    def __getitem__(self, h):
        return self.d[h]

    def get(self, h, default=None):
        return self.d.get(h, default)

    def __setitem__(self, h, v):
        self.d[h] = v

    def __delitem__(self, h):
        del self.d[h]

    def pop(self, h, *a):
        return self.d.pop(h, *a)

    def materialise(self, s):
        self.x.assume(self.rest > 0)
        self.d[s.hash_tuple] = s
        self.rest = self.rest - 1

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported("dict." + n + " on a hash table of unknown size")


class FixMin(LoopContract):
    """Popping invalid states off the top: valid ones stay, the heap shrinks."""

    def __init__(self, w):
        self.w = w

    def havoc(self, x, L):
        self.w.forget_invalid()
        return {}

    def inv(self, x, L):
        w = self.w
        return [("every valid known state is still in the heap", w.valid_in_heap())]

    def variant(self, x, L):
        return L["self"].beam.size()


class World:
    """A hashed beam satisfying its representation invariant, of any size."""

    def __init__(self, x):
        self.x = x
        self.nid = 0
        self.cap = x.int("capacity", 1)
        self.b = HashedBeam(self.cap)
        self.members = []
        has_s = x.choice("tracked member", [True, False])
        self.s = self.member(x.real("s"), "s") if has_s else None
        self.dict = AbsDict(x, {m.hash_tuple: m for m in self.members}, x.int("others", 0))
        # heap: the valid states (= the table's) and any number of invalid ones
        self.stale = x.int("stale", 0)
        self.b.state_dict = self.dict
        self.heap = AbsHeap.__new__(AbsHeap)
        h = self.heap
        h.x, h.known, h.make = x, list(self.members), self.make
        h.rest = self.dict.rest + self.stale
        h.popped, h.top = [], None
        self.all_valid_only = True
        h._settle()
        self.b.beam = h
        self.all_valid_only = False
        x.replace(bs, "heapq", HeapQ(), WHY)

    def member(self, lp, tag):
        s = state(lp, (tag,))
        self.members.append(s)
        return s

    def make(self, heap):
        """Materialise an anonymous heap element: a valid state with its own table entry, or a stale one."""
        x = self.x
        self.nid += 1
        valid = True if self.all_valid_only else x.choice("other is valid", [True, False])
        s = self.member(x.fresh_real("o"), f"o{self.nid}")
        if valid:
            self.dict.materialise(s)
        else:
            x.assume(self.stale > 0)
            self.stale = self.stale - 1
            s.invalidate()
        return s

    def forget_invalid(self):
        """Arbitrary moment of the clean-up loop: some stale states are gone, some top is settled."""
        x, h = self.x, self.heap
        k = x.fresh_int("gone")
        x.assume(x.and_(k >= 0, k <= self.stale))
        self.stale = self.stale - k
        h.rest = h.rest - k
        h.known = [m for m in h.known if m.is_valid() or not x.choice("a stale known one is gone", [False, True])]
        h._settle()
        x.assume(h.size() > 0)

    def valid_in_heap(self):
        return all(any(m is k for k in self.heap.known) for m in self.members if m.is_valid() and m in self.alive())

    def alive(self):
        return [m for m in self.members if self.dict.d.get(m.hash_tuple) is m]


def hashed_rep(x, w, label):
    """Representation invariant, on everything known."""
    h, d = w.heap, w.dict
    for m in w.members:
        in_dict = d.d.get(m.hash_tuple) is m
        in_heap = any(k is m for k in h.known)
        x.check(label + ": a listed state is valid and in the heap", x.implies(in_dict, m.is_valid() and in_heap))
        x.check(label + ": a valid heap state is listed", x.implies(in_heap and m.is_valid(), in_dict))
    if h.top is not None:
        x.check(label + ": the top of the heap is valid", h.top.is_valid())
        for m in w.alive():
            x.check(label + ": the top is the worst", h.top.log_prob <= m.log_prob)


@harness([BS + "HashedBeam.add", BS + "HashedBeam.fits_in_beam", BS + "HashedBeam._fix_beam_min", BS + "HashedBeam.__len__"])
def hashed_add(x):
    """Hashed beam of any size: at most one state per hash (the better of two), otherwise as the plain beam;
    the counted and listed states are exactly the valid ones; the heap top stays valid and minimal."""
    if not x.symbolic or x.mode_unroll is not None:
        return history(x, HashedBeam, True)
    w = World(x)
    b, heap, d, s, cap = w.b, w.heap, w.dict, w.s, w.cap
    n0 = d.vc_len()
    top0 = heap.top
    rel = x.choice("hash", ["new", "tracked", "top", "another"])
    old = None
    if rel == "tracked":
        if s is None or s is top0:
            return
        old = s
    elif rel == "top":
        if top0 is None:
            return
        old = top0
    elif rel == "another":
        x.assume(d.rest > 0)
        x.assume(heap.rest > 0)
        old = w.member(x.real("another"), "another")
        d.materialise(old)
        heap.known.append(old)
        heap.rest = heap.rest - 1
        x.assume(top0.log_prob <= old.log_prob)
    new = state(x.real("new"), old.hash_tuple if old is not None else ("fresh",))
    x.loop(FIX, FixMin(w))
    force = x.choice("force", [False, True])
    full = n0 >= cap
    better_than_worst = False if top0 is None else top0.log_prob < new.log_prob
    glob = x.or_(x.not_(full), better_than_worst)
    fits = x.returns("fits_in_beam returns", x.call(b.fits_in_beam, new))
    slot = True if old is None else old.log_prob < new.log_prob
    x.check("fits: globally and in its slot", x.iff(fits, x.and_(glob, slot)))
    fits2 = x.returns("fits_in_beam without hash returns", x.call(b.fits_in_beam, new, check_hash=False))
    x.check("fits: globally", x.iff(fits2, glob))
    w.members.append(new)
    if old is not None:
        want = old.log_prob < new.log_prob
    else:
        want = x.or_(force, glob)
    added = x.returns("add returns", x.call(b.add, new, force=force))
    x.check("reports whether it was added", x.iff(added, want))
    x.check("listed exactly when added", x.iff(added, d.d.get(new.hash_tuple) is new))
    grew = x.and_(old is None, added, x.or_(force, x.not_(full)))
    x.check("count", d.vc_len() == x.ite(grew, n0 + 1, n0))
    x.check("count reported", b.__len__() == d.vc_len())
    if old is not None:
        x.check("the worse state of the same hash is gone", x.iff(added, not old.is_valid()))
    if s is not None:
        gone = d.d.get(s.hash_tuple) is not s
        x.check(
            "only the same-hash state or the worst state leaves",
            x.implies(gone, x.and_(s.log_prob < new.log_prob, s is old or (old is None and s is top0))),
        )
        x.check("a state leaves only when another takes its place", x.implies(gone, x.and_(added, x.not_(grew))))
    hashed_rep(x, w, "afterwards")


@harness([BS + "HashedBeam.empty", BS + "HashedBeam.__iter__", BS + "HashedBeam.__init__"])
def hashed_empty(x):
    """A fresh or emptied hashed beam holds nothing and can be filled again; iteration lists its states."""
    b = HashedBeam(x.choice("capacity", [1, 2, 3]))
    a, c = x.real("a"), x.real("c")
    again = x.choice("emptied before", [False, True])
    if again:
        x.returns("add returns", x.call(b.add, state(a, ("p",))))
        x.returns("empty returns", x.call(b.empty))
    x.check("nothing inside", b.__len__() == 0 and list(b) == [] and b.get_top_state() is None)
    s = state(c, ("q",))
    x.check("accepts a state", x.returns("add returns", x.call(b.add, s)))
    x.check("holds it", b.__len__() == 1 and list(b) == [s] and b.get_top_state() is s)


# ---- histories -------------------------------------------------------------------------------------
def reference(cap, hashed, ops):
    """Naive model: list of kept states."""
    kept, answers = [], []
    for s, force in ops:
        if hashed:
            same = [k for k in kept if k.get_hash() == s.get_hash()]
            if same:
                if same[0].log_prob < s.log_prob:
                    kept[[k is same[0] for k in kept].index(True)] = s
                    answers.append(True)
                else:
                    answers.append(False)
                continue
        if not force and len(kept) >= cap:
            worst = kept[0]
            for k in kept:
                if k.log_prob < worst.log_prob:
                    worst = k
            if worst.log_prob < s.log_prob:
                kept = [k for k in kept if k is not worst] + [s]
                answers.append(True)
            else:
                answers.append(False)
            continue
        kept.append(s)
        answers.append(True)
    return kept, answers


def history(x, cls, hashed):
    """A whole history of adds against the naive model."""
    cap = x.choice("cap", [1, 2] if x.symbolic else [1, 2, 3, 4, 7])
    n = x.choice("adds", [2, 3] if x.symbolic else [1, 3, 6, 12, 30])
    b = cls(cap)
    ops, got, lps = [], [], []
    for i in range(n):
        if x.symbolic:
            lp = x.real(f"lp{i}")
            # distinct log-probabilities: which of two equally bad states leaves is not specified
            for q in lps:
                x.assume(lp != q)
            force = False
        else:
            lp = x.int(f"lp{i}", 0, 200) * 64 + i + 0.5
            force = x.choice(f"force{i}", [False] * 9 + [True])
        lps.append(lp)
        s = state(lp, ("h", x.choice(f"hash{i}", [0, 1] if x.symbolic else list(range(6)))) if hashed else None)
        if not x.symbolic:
            s._must_key_transition = x.choice(f"must change key {i}", [False, True])
        kept0, _ = reference(cap, hashed, ops)
        room = len(kept0) < cap or any(bool(k.log_prob < lp) for k in kept0)
        slot = all(bool(k.log_prob < lp) for k in kept0 if hashed and k.get_hash() == s.get_hash())
        fits = x.returns("fits returns", x.call(b.fits_in_beam, s))
        x.check("fits: globally and in its slot", bool(fits) == (room and slot))
        fits2 = x.returns("fits without hash returns", x.call(b.fits_in_beam, s, check_hash=False))
        x.check("fits: globally", bool(fits2) == room)
        ops.append((s, force))
        got.append(x.returns("add returns", x.call(b.add, s, force=force)))
        kept, answers = reference(cap, hashed, ops)
        x.check("answers", [bool(g) for g in got] == answers)
        x.check("count", b.__len__() == len(kept))
        x.check("kept states", len(list(b)) == len(kept) and {id(k) for k in b} == {id(k) for k in kept})
        x.check("kept states are valid", all(k.is_valid() for k in b))
        top = x.returns("top returns", x.call(b.get_top_state))
        x.check("top state", any(top is k for k in kept) and all(bool(k.log_prob <= top.log_prob) for k in kept))
        if b.__len__() > 0:
            x.check("heap top is the worst kept state", all(bool(b.beam[0].log_prob <= k.log_prob) for k in kept))


@harness([BS + "Beam.add", BS + "Beam.get_top_state"], kind="bounded", bound="histories of at most 3 adds, capacity at most 2")
def beam_history(x):
    """Histories of adds on a plain beam against the naive model (real heapq)."""
    history(x, Beam, False)


@harness([BS + "HashedBeam.add"], kind="bounded", bound="histories of at most 3 adds, capacity at most 2, 2 hashes")
def hashed_history(x):
    """Histories of adds on a hashed beam against the naive model (real heapq)."""
    history(x, HashedBeam, True)
