"""Ghost state for the proof of HarmonicInferenceModel.beam_search (C17): states, beams and bags of any size.

A state is known by what the contract of State (C10) says about it; a beam by the contract of Beam (C09); the lists the
search keeps are bags of states that all have been checked when they were put in.  One input (T) and one step of the search
(member sid of beam c, range j, position i among its chords, one key decision) are arbitrary but fixed: what is proved about
them holds for all.
"""
from common import *
import numpy as np
from pyvc.instrument import LoopContract, VcEnum
from pyvc.seq import Seq
from pyvc.smt import BOOL, INT, REAL
from pyvc.sym import Unsupported
import harmonic_inference.models.joint_model as jm

LOOP = "models.joint_model.HarmonicInferenceModel.beam_search#"
LAYOUT = {}


class No:
    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported(type(self).__name__ + "." + n)

    def __iter__(self):
        raise Unsupported("iterating " + type(self).__name__)

    def __len__(self):
        raise Unsupported("length of " + type(self).__name__)

    def __bool__(self):
        raise Unsupported("truth of " + type(self).__name__)


# ---- forced labels -----------------------------------------------------------------------------------
class Members(No):
    """A set of inputs."""

    def __init__(self, w, *kinds):
        self.w, self.kinds = w, kinds

    def __or__(self, o):
        return Members(self.w, *self.kinds, *o.kinds)

    union = __or__

    def has(self, i):
        return self.w.x.or_(*[self.w.isin(k, i) for k in self.kinds])

    def __contains__(self, i):
        return bool(self.has(i))


class Labels(No):
    """The forced label of each input (-1: none)."""

    def __init__(self, w, kind):
        self.w, self.kind = w, kind

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None or i.start is None or i.stop is None:
                raise Unsupported("slice of forced labels")
            return Part(self.w, self.kind, i.start, i.stop)
        self.w.x.check("label of an input", self.w.x.and_(i >= 0, i < self.w.n))
        return self.w.forced(self.kind, i)


class Part(No):
    def __init__(self, w, kind, a, b):
        self.a = (w, kind, a, b)

    def vc_set(self):
        return Distinct(*self.a)


class Distinct(No):
    """The set of forced labels in [a, b)."""

    def __init__(self, w, kind, a, b, bare=False):
        self.w, self.kind, self.a, self.b, self.bare = w, kind, a, b, bare

    def __sub__(self, o):
        if o != {-1}:
            raise Unsupported("set difference")
        self.w.distinct_facts(self.kind, self.a, self.b)
        return Distinct(self.w, self.kind, self.a, self.b, True)

    def vc_len(self):
        if not self.bare:
            raise Unsupported("set with -1")
        return self.w.count(self.kind, self.a, self.b)

    def __bool__(self):
        return bool(self.vc_len() > 0)

    def vc_list(self):
        return self

    def __getitem__(self, i):
        if i != 0 or not self.bare:
            raise Unsupported("element of a set")
        if not self.vc_len() > 0:
            raise IndexError("list index out of range")
        return self.w.only(self.kind, self.a, self.b)

    def __iter__(self):
        # enough for min, max, next(iter()) of a set of one
        if not self.vc_len() == 1:
            raise Unsupported("iterating a set")
        return iter([self.w.only(self.kind, self.a, self.b)])

    def __contains__(self, v):
        x, w = self.w.x, self.w
        n = self.vc_len()
        some = x.ufun("in set", BOOL, v, self.a, self.b)
        return bool(x.and_(n >= 1, x.ite(n == 1, v == w.only(self.kind, self.a, self.b), some)))


# ---- ranges ------------------------------------------------------------------------------------------
class Vec(No):
    """One value per range."""

    def __init__(self, w, fn):
        self.w, self.fn = w, fn

    def vc_len(self):
        return self.w.m

    def vc_at(self, k):
        return self.fn(k)

    def __add__(self, v):
        return Vec(self.w, lambda k: self.fn(k) + v)

    __radd__ = __add__


class Matrix(No):
    """One row per range, one column per chord."""

    def __init__(self, w, fn, role=None):
        self.w, self.fn, self.role = w, fn, role

    @property
    def shape(self):
        return (self.w.m, self.w.V)

    def vc_len(self):
        return self.w.m

    def vc_at(self, k):
        return Row(self.w, k, self.fn, self.role)

    def __neg__(self):
        return Matrix(self.w, lambda k, i: -self.fn(k, i))

    def __ge__(self, v):
        return Matrix(self.w, lambda k, i: self.fn(k, i) >= v)

    def same(self, fn):
        x = self.w.x
        k, i = x.fresh_int("row"), x.fresh_int("column")
        return self.fn(k, i) == fn(k, i)


class Row(No):
    def __init__(self, w, j, fn, role):
        self.w, self.j, self.fn, self.role = w, j, fn, role
        self.first = None
        if role == "order":
            # its first entry may have been overwritten by the forced chord of the range already
            a, b = w.rs(j), w.re(j)
            x = w.x
            z = x.fresh_bool("overwritten")
            self.first = x.ite(x.and_(z, w.count("chord", a, b) >= 1), w.only("chord", a, b), w.AS(j, 0))

    def __getitem__(self, i):
        x, w = self.w.x, self.w
        if isinstance(i, slice):
            if self.role != "order" or i.step is not None or (i.start is not None and i.start != 0) or i.stop is None:
                raise Unsupported("slice of a row")
            return Chords(self, x.ite(i.stop < 0, 0, x.ite(i.stop > w.V, w.V, i.stop)))
        x.check("a chord of the vocabulary", x.and_(i >= 0, i < w.V))
        if self.role == "order":
            return x.ite(i == 0, self.first, self.fn(self.j, i))
        return self.fn(self.j, i)

    def __setitem__(self, i, v):
        if i != 0 or self.role != "order":
            raise Unsupported("writing into a row")
        x, w = self.w.x, self.w
        a, b = w.rs(self.j), w.re(self.j)
        x.check("only the forced chord takes the first place", x.and_(w.count("chord", a, b) >= 1, v == w.only("chord", a, b)))
        self.first = v


class Chords(No):
    """The first n chords of a row."""

    def __init__(self, row, n):
        self.row, self.n = row, n

    def vc_len(self):
        return self.n

    def vc_at(self, k):
        w = self.row.w
        w.pos = k
        w.x.assume(w.x.and_(w.AS(self.row.j, k) >= 0, w.AS(self.row.j, k) < w.V))  # argsort: a permutation
        return self.row[k]


class Numpy:
    def __init__(self, w):
        self.w = w
        self.errstate = np.errstate

    def __getattr__(self, n):
        raise Unsupported("numpy." + n)

    def exp(self, a):
        if not isinstance(a, Matrix) or a.role != "log prior":
            raise Unsupported("exp")
        return Matrix(self.w, self.w.P, "prior")

    def argsort(self, a):
        if not isinstance(a, Matrix):
            raise Unsupported("argsort")
        self.w.x.check("ordered by descending probability", a.same(lambda k, i: -self.w.P(k, i)))
        return Matrix(self.w, self.w.AS, "order")

    def take_along_axis(self, a, order, axis):
        if axis not in (-1, 1) or getattr(order, "role", None) != "order":
            raise Unsupported("take_along_axis")
        return Matrix(self.w, lambda k, i: a.fn(k, self.w.AS(k, i)))

    def cumsum(self, a, axis=None):
        if axis not in (-1, 1):
            raise Unsupported("cumsum")
        self.w.x.check("mass of the likeliest chords", a.same(lambda k, i: self.w.P(k, self.w.AS(k, i))))
        return Matrix(self.w, self.w.mass)

    def _reached(self, a, axis):
        if axis not in (-1, 1):
            raise Unsupported("axis")
        self.w.x.check("the mass reaches the target", a.same(lambda k, i: self.w.mass(k, i) >= self.w.target))

    def any(self, a, axis=None):
        self._reached(a, axis)
        return Vec(self.w, self.w.ever)

    def argmax(self, a, axis=None):
        self._reached(a, axis)
        return Vec(self.w, lambda k: self.w.x.ite(self.w.ever(k), self.w.firsthit(k), 0))

    def where(self, c, a, b):
        x = self.w.x
        get = lambda v, k: v.fn(k) if isinstance(v, Vec) else v  # noqa: E731
        return Vec(self.w, lambda k: x.ite(c.fn(k), get(a, k), get(b, k)))

    def clip(self, a, lo, hi):
        # numpy: minimum(maximum(a, lo), hi)
        x = self.w.x
        f = lambda v: x.ite(v < lo, lo, v)  # noqa: E731
        return Vec(self.w, lambda k: x.ite(f(a.fn(k)) > hi, hi, f(a.fn(k))))

    def log(self, a):
        if not isinstance(a, Probs):
            raise Unsupported("log")
        return Probs(a.bag, lambda k: self.w.LOG(a.fn(k)))


class ByStart(No):
    """defaultdict(list): the data of the ranges by their start."""

    def __init__(self, w):
        self.w = w

    def __getitem__(self, s):
        return Slot(self.w, s)


class Slot(No):
    def __init__(self, w, start):
        self.w, self.start = w, start

    def append(self, entry):
        x, w = self.w.x, self.w
        if w.collecting is None or not isinstance(entry, tuple):
            raise Unsupported("data of a range")
        j = w.collecting
        x.check("filed under its start", self.start == w.rs(j))
        names = []
        for v in entry:
            for n, u in w.data(j).items():
                if isinstance(u, Row):
                    hit = isinstance(v, Row) and v.role == u.role and v.j is j
                else:
                    hit = not isinstance(v, Row) and type(v) is type(u) and str(v.t) == str(u.t)
                if hit:
                    names.append(n)
                    break
            else:
                names.append(None)
        left = [n for n in w.data(j) if n not in names]
        if names.count(None) == len(left) == 1:
            v = entry[names.index(None)]
            names[names.index(None)] = left[0]
            if isinstance(v, Row) or left[0] in ("prior", "order"):
                raise Unsupported("data of a range not recognised")
            x.check("data of a range: " + left[0], v == w.data(j)[left[0]])
        if None in names:
            raise Unsupported("data of a range not recognised")
        if LAYOUT.setdefault("names", names) != names or len(set(names)) != len(names):
            raise Unsupported("layout of the data of a range")
        w.filed = x.or_(w.filed, j == w.j)

    def entry(self, j):
        if "names" not in LAYOUT:
            raise Unsupported("layout of the data of a range")
        d = self.w.data(j)
        return tuple(d[n] for n in LAYOUT["names"])


# ---- states ------------------------------------------------------------------------------------------
class S(No):
    """A state."""

    def __init__(self, w, **k):
        self.__dict__.update(w=w, phase=None, ktm=None, src=None, **k)

    def is_valid(self, check_key=False):
        return self.w.x.not_(self.must) if check_key else True

    def can_key_transition(self):
        if self.prev_state is None:
            return False
        return self.prev_state.change_index > 0

    def args(self, pitch_type, labels):
        self.w.x.check("pitch type and labels of the model", pitch_type == self.w.pt and labels is self.w.LABELS)

    def chord_transition(self, chord, change_index, log_prob, pitch_type, labels):
        x, w = self.w.x, self.w
        self.args(pitch_type, labels)
        j = w.range_now
        if self.phase != "member" or j is None:
            raise Unsupported("transition of such a state")
        x.check("a new chord ends where its range ends", change_index == w.re(j))
        x.check(
            "probability of a new chord: its range and its classification on every input",
            log_prob == w.lp(j) + w.PR(j, chord) * (w.re(j) - w.rs(j)),
        )
        if self.prev_state is not None:
            x.check("a new chord differs from the one before", x.not_(chord == self.chord))
        if w.refused(self.key, chord):
            return None
        return w.stepped(self, j, chord, False)

    def rejoin(self, new_range_end, log_prob, pitch_type, labels):
        x, w = self.w.x, self.w
        self.args(pitch_type, labels)
        j = w.range_now
        if self.phase != "member" or j is None:
            raise Unsupported("rejoin of such a state")
        x.check("a chord that goes on: not at the start of the piece", self.prev_state is not None)
        x.check("a chord that goes on ends where its range ends", new_range_end == w.re(j))
        x.check(
            "probability of a chord that goes on: its range and its classification, and no change in between",
            log_prob == w.lp(j) + w.PR(j, self.chord) * (w.re(j) - w.rs(j)) + w.rj(j),
        )
        return w.stepped(self, j, self.chord, True)

    def copy(self):
        c = S(self.w)
        c.__dict__.update(self.__dict__)
        return c

    def add_ktm_log_prob(self, v):
        if self.phase != "stepped":
            self.w.x.check("one key decision per chord", False)
        self.ktm, self.phase = v, "decided"

    def add_csm_prior(self, pitch_based, pitch_type, duration_cache, onset_cache, onset_level_cache, labels, use_output_inversions,
                      output_reduction):
        x, w = self.w.x, self.w
        if self.phase != "kept":
            x.check("the chord prior enters once", False)
        self.args(pitch_type, labels)
        x.check("tables of the piece", duration_cache is w.caches[0] and onset_cache is w.caches[1] and onset_level_cache is w.caches[2])
        x.check(
            "vocabulary of the chord sequence model",
            pitch_based is w.pitch_based and use_output_inversions is w.inv and output_reduction is w.red,
        )
        self.phase = "scored"


class Initial(No):
    """A newly made initial state."""

    def __init__(self, w, key, hash_length):
        self.__dict__.update(w=w, key=key, csm_log_prior=None, phase="initial")
        w.x.check("history length of the model", hash_length is w.hash_length)

    def __setattr__(self, n, v):
        if n != "csm_log_prior":
            raise Unsupported("setting " + n)
        self.__dict__[n] = v


class ByMode(No):
    """Initial prior for keys of one mode."""

    def __init__(self, minor, log):
        self.minor, self.log = minor, log


class Mode(No):
    def __init__(self, w, key):
        self.w, self.key = w, key

    def __eq__(self, o):
        if o is KeyMode.MINOR:
            return self.w.minor(self.key)
        if o is KeyMode.MAJOR:
            return self.w.x.not_(self.w.minor(self.key))
        raise Unsupported("mode")

    def __ne__(self, o):
        return self.w.x.not_(self == o)

    __hash__ = None


class KeyLabels(No):
    def __init__(self, w):
        self.w = w

    def __getitem__(self, k):
        return (None, Mode(self.w, k))


# ---- beams and bags ----------------------------------------------------------------------------------
class Beam(No):
    def __init__(self, w, size, hashed):
        self.w, self.i = w, w.last_index
        w.x.check("beams of the size of the model", size is w.beam_size)
        w.x.check("hashed exactly when a history length is given", hashed == (w.hash_length is not None))

    def vc_len(self):
        x, w = self.w.x, self.w
        v = x.fresh_int("beam length")
        x.assume(v >= 0)
        if w.roomy:
            x.assume(v < w.beam_size)
            x.assume(x.implies(self.i == w.c, v >= 1))
        else:
            x.assume(x.or_(x.not_(self.i == 0), v >= 1))
        return v

    @property
    def beam(self):
        return [type("Worst", (), {"log_prob": self.w.x.fresh_real("worst")})()]

    def fits_in_beam(self, state, check_hash=True):
        if self.w.roomy:
            return True
        return self.w.x.fresh_bool("fits")

    def add(self, state, force=False):
        x, w = self.w.x, self.w
        if isinstance(state, Initial):
            x.check("initial states are where the piece starts", self.i == 0)
            p = state.csm_log_prior
            if not isinstance(p, ByMode):
                raise Unsupported("initial prior")
            x.check("first chords: by the mode of the first key", x.and_(x.iff(p.minor, w.minor(state.key)), p.log is True))
            x.check("a first key that is allowed", w.first_key(state.key))
            w.started = x.or_(w.started, state.key == w.k0)
            return True
        if not isinstance(state, S):
            raise Unsupported("adding something else")
        x.check("states are kept where they end", self.i == state.change_index)
        x.check("later than where they began", state.prev_state.change_index < state.change_index)
        x.check("a state is complete when it is kept", state.phase in ("scored", "keyed"))
        if state.phase == "keyed":
            x.check("its models have read its new key", state.bag.read_ktm and state.bag.read_ksm)
        x.check("it obeys what is forced", w.obeys(state))
        mine = x.and_(w.is_tracked(state), w.now == w.c)
        if state.phase == "scored":
            w.got_kept = x.or_(w.got_kept, mine)
        else:
            w.got_changed = x.or_(w.got_changed, x.and_(mine, state.key == w.nk))
        return True

    def empty(self):
        self.w.x.check("only the beam that has been worked off is emptied", self.i == self.w.now)

    def vc_list(self):
        return Bag(self.w, "members", self)

    def get_top_state(self):
        w = self.w
        w.top = Top(self)
        return w.top


class Top(No):
    def __init__(self, beam):
        self.i = beam.i


class Bag(No):
    """States that were checked when they were put in; n of them."""

    def __init__(self, w, role, beam=None):
        self.w, self.role, self.beam = w, role, beam
        self.n = w.x.fresh_int("bag " + role)
        w.x.assume(self.n >= 0)
        self.where = w.x.fresh_int("place of the tracked state")
        self.tag = w.fresh_tag()
        self.read_ktm = self.read_ksm = False

    def vc_len(self):
        return self.n

    def ids(self, k):
        x = self.w.x
        return [x.ufun(f"{n} {self.tag}", INT, k) for n in ("member of", "range of", "chord of", "key of")]

    def contains_tracked(self, there, chord=None, key=None):
        """there: whether the tracked step's state is in here."""
        x, w = self.w.x, self.w
        p = self.where
        a, b, c, k = self.ids(p)
        x.assume(x.implies(there, x.and_(
            p >= 0, p < self.n, a == w.sid, b == w.j, c == w.step_chord(), True if key is None else k == key)))

    def vc_at(self, k):
        w = self.w
        if self.role == "members":
            raise Unsupported("iterating the members")
        s = w.element(self, k)
        return s

    def append(self, s):
        x, w = self.w.x, self.w
        if not isinstance(s, S):
            raise Unsupported("collecting something else")
        w.put(self.role, s)
        self.n = self.n + 1


class Probs(No):
    """A number for each state of a bag."""

    def __init__(self, bag, fn):
        self.bag, self.fn = bag, fn

    def vc_len(self):
        return self.bag.n

    def vc_at(self, k):
        return self.fn(k)

    def __getitem__(self, k):
        if not self.bag.w.x.and_(k >= 0, k < self.bag.n):
            raise Unsupported("place in the numbers")
        return self.fn(k)

    def __rsub__(self, v):
        return Probs(self.bag, lambda k: v - self.fn(k))


class Product(No):
    """All pairs of a member of the beam and a range starting here."""

    def __init__(self, w, beam, slot):
        x = w.x
        self.w = w
        if not isinstance(beam, (Beam, Bag)) or not isinstance(slot, Slot):
            raise Unsupported("product")
        i = beam.i if isinstance(beam, Beam) else beam.beam.i
        x.check("members of this beam with the ranges that start here", x.and_(i == w.now, slot.start == w.now))
        self.slot = slot
        self.n = x.fresh_int("pairs")
        x.assume(self.n >= 0)
        self.where = x.fresh_int("place of the tracked pair")
        self.tag = w.fresh_tag()
        if w.roomy:
            x.assume(x.implies(x.and_(w.now == w.c, w.filed), x.and_(
                self.where >= 0, self.where < self.n, self.ids(self.where)[0] == w.sid, self.ids(self.where)[1] == w.j)))

    def ids(self, k):
        return [self.w.x.ufun(f"{n} {self.tag}", INT, k) for n in ("left", "right")]

    def vc_len(self):
        return self.n

    def vc_at(self, k):
        w = self.w
        sid, j = self.ids(k)
        w.range_facts(j)
        w.x.assume(w.rs(j) == w.now)
        w.range_now, w.sid_now = j, sid
        return (w.member(sid), self.slot.entry(j))


class Itertools:
    def __init__(self, w):
        self.w = w

    def __getattr__(self, n):
        raise Unsupported("itertools." + n)

    def product(self, a, b):
        return Product(self.w, a, b)


# ---- the world ---------------------------------------------------------------------------------------
class World:
    def __init__(self, x, roomy):
        self.x, self.roomy = x, roomy
        self.pt, self.pitch_based, length = x.choice("setting", [(TPC, False, None), (MIDI, True, 3)])
        self.n, self.m, self.V = x.int("inputs", 1), x.int("ranges", 0), x.int("vocabulary", 1)
        self.T = x.int("tracked input")
        x.assume(x.and_(self.T >= 0, self.T < self.n))
        self.target = x.real("target mass")
        self.branching = x.int("chord branching", 1)
        self.beam_size = x.int("beam size", 1)
        self.hash_length = None if roomy else length
        self.min_key, self.max_keep = x.real("min key change"), x.real("max no key change")
        x.assume(self.min_key > 0)
        self.nkeys = len(jm.hu.get_key_label_list(self.pt))
        # the tracked step
        self.c, self.sid, self.j, self.i = x.int("tracked start"), x.int("tracked member"), x.int("tracked range"), x.int("tracked position")
        self.nk, self.k0 = x.int("tracked new key"), x.int("tracked first key")
        x.assume(x.and_(self.c >= 0, self.c < self.n, self.j >= 0, self.j < self.m, self.i >= 0))
        self.range_facts(self.j)
        x.assume(self.rs(self.j) == self.c)
        self.collecting = self.now = self.range_now = self.sid_now = self.pos = self.last_index = self.top = None
        self.filed = self.started = self.csm_ran = False
        self.got_kept = self.got_changed = False
        self.in_check = self.in_keep = self.in_change = False
        self.tags = 0
        for k in ("chord", "key"):
            x.assume(self.forced(k, self.T) >= -1)
        x.assume(x.not_(x.and_(self.isin("key changes", self.T), self.isin("key non changes", self.T))))
        self.LABELS = {"key": KeyLabels(self)}
        self.caches = tuple(type("Cache", (No,), {})() for _ in range(3))
        self.red, self.inv = type("Reduction", (No,), {})(), type("Inversions", (No,), {})()

    def fresh_tag(self):
        self.tags += 1
        return self.tags

    # what is given
    def isin(self, kind, i):
        return self.x.ufun("in " + kind, BOOL, i)

    def forced(self, kind, i):
        return self.x.ufun("forced " + kind, INT, i)

    def count(self, kind, a, b):
        return self.x.ufun("forced count " + kind, INT, a, b)

    def only(self, kind, a, b):
        return self.x.ufun("forced only " + kind, INT, a, b)

    def distinct_facts(self, kind, a, b):
        x = self.x
        n, v, T = self.count(kind, a, b), self.only(kind, a, b), self.T
        f = self.forced(kind, T)
        x.assume(n >= 0)
        x.assume(x.implies(n >= 1, v >= 0))
        x.assume(x.implies(x.and_(T >= a, T < b, x.not_(f == -1)), x.and_(n >= 1, x.implies(n == 1, v == f))))
        if kind == "chord":
            x.assume(x.implies(n >= 1, v < self.V))

    def rs(self, j):
        return self.x.ufun("start", INT, j)

    def re(self, j):
        return self.x.ufun("end", INT, j)

    def lp(self, j):
        return self.x.ufun("range lp", REAL, j)

    def rj(self, j):
        return self.x.ufun("rejoin lp", REAL, j)

    def PR(self, j, c):
        return self.x.ufun("log prior", REAL, j, c)

    def P(self, j, c):
        return self.x.ufun("exp", REAL, self.PR(j, c))

    def AS(self, j, i):
        return self.x.ufun("order", INT, j, i)

    def mass(self, j, i):
        return self.x.ufun("mass", REAL, j, i)

    def ever(self, j):
        return self.x.ufun("mass reached", BOOL, j)

    def firsthit(self, j):
        v = self.x.ufun("mass reached first", INT, j)
        return v

    def LOG(self, v):
        return self.x.ufun("log", REAL, v)

    def minor(self, k):
        return self.x.ufun("minor", BOOL, k)

    def limit(self, j):
        """Chords branched into: the fewest whose mass reaches the target (all if it never does), at most the branching factor."""
        x = self.x
        n = x.ite(self.ever(j), self.firsthit(j) + 1, self.V)
        n = x.ite(n < 1, 1, n)
        return x.ite(n > self.branching, self.branching, n)

    def data(self, j):
        return {
            "end": self.re(j), "lp": self.lp(j), "rj": self.rj(j), "prior": Row(self, j, self.PR, "log prior"),
            "order": Row(self, j, self.AS, "order"), "limit": self.limit(j),
        }

    def range_facts(self, j):
        """The contract of get_chord_ranges (C11)."""
        x = self.x
        a, b, T = self.rs(j), self.re(j), self.T
        x.assume(x.and_(a >= 0, a < b, b <= self.n))
        self.distinct_facts("chord", a, b)
        x.assume(self.count("chord", a, b) <= 1)
        x.assume(x.implies(x.and_(a < T, T < b), x.not_(x.or_(self.isin("chord changes", T), self.isin("key changes", T)))))
        x.assume(x.implies(x.and_(T == a, a > 0), x.not_(self.isin("chord non changes", T))))
        x.assume(x.and_(self.AS(j, 0) >= 0, self.AS(j, 0) < self.V))

    # members of the current beam, by identity
    def member(self, sid):
        """An arbitrary state of the beam at the current position."""
        x, k, T = self.x, self.now, self.T
        u = lambda n, sort=INT: x.ufun(n, sort, sid)  # noqa: E731
        if k == 0:
            s = S(self, prev_state=None, chord=None, key=u("first key"), change_index=0, log_prob=u("member lp", REAL), must=False)
            x.assume(self.first_key(s.key))
        else:
            a, key = u("member from"), u("member key")
            x.assume(x.and_(a >= 0, a < k))
            p = S(self, change_index=a, key=u("member key before"), prev_state="earlier", chord=None, must=False)
            s = S(self, prev_state=p, chord=u("member chord"), key=key, change_index=k, log_prob=u("member lp", REAL), must=False)
            x.assume(self.obeys(s))
            x.assume(x.and_(s.chord >= 0, s.chord < self.V))
        s.phase, s.sid = "member", sid
        return s

    def first_key(self, key):
        x = self.x
        f = self.forced("key", 0)
        return x.ite(f == -1, x.and_(key >= 0, key < self.nkeys), key == f)

    def obeys(self, s):
        """What is forced at the tracked input is so in this state, if its last chord covers it."""
        x, T = self.x, self.T
        p = s.prev_state
        a = p.change_index
        inside = x.and_(a <= T, T < s.change_index)
        fc, fk = self.forced("chord", T), self.forced("key", T)
        return x.implies(inside, x.and_(
            x.or_(fc == -1, s.chord == fc),
            x.or_(fk == -1, s.key == fk),
            x.implies(x.and_(T == a, T > 0), x.and_(
                x.not_(self.isin("chord non changes", T)),
                x.implies(self.isin("key changes", T), x.not_(s.key == p.key)),
                x.implies(self.isin("key non changes", T), s.key == p.key),
            )),
            x.implies(T > a, x.not_(x.or_(self.isin("chord changes", T), self.isin("key changes", T)))),
        ))

    # one step
    def refused(self, key, chord):
        return self.x.ufun("refused", BOOL, key, chord)

    def outside(self, key, chord):
        return self.x.ufun("outside", BOOL, key, chord)

    def Q(self, sid, j, chord):
        """Probability of a key change at the state reached from a member by a range and a chord."""
        return self.x.ufun("key change", REAL, sid, j, chord)

    def stepped(self, s, j, chord, rejoined):
        p = s.prev_state if rejoined else s
        t = S(self, prev_state=p, chord=chord, key=p.key, change_index=self.re(j), must=self.outside(p.key, chord))
        t.log_prob = self.x.ufun("stepped lp", REAL, s.sid, j, chord)
        t.phase, t.src, t.sid, t.rejoined = "stepped", (s.sid, j, chord), s.sid, rejoined
        t.csm_ok = True if rejoined else self.x.or_(self.now == 0, self.csm_ran)
        return t

    def goes_on(self, s, chord):
        """Whether a member's chord goes on rather than a new one beginning."""
        return False if s.prev_state is None else s.chord == chord

    def chord_limit(self, s, j):
        x = self.x
        n = self.limit(j)
        again = False if s.prev_state is None else self.AS(j, 0) == s.chord
        n = x.ite(x.and_(n == 1, again), 2, n)
        n = x.ite(self.count("chord", self.rs(j), self.re(j)) >= 1, 1, n)
        return x.ite(n > self.V, self.V, n)

    def chord_at(self, j, i):
        a, b = self.rs(j), self.re(j)
        return self.x.ite(self.count("chord", a, b) >= 1, self.only("chord", a, b), self.AS(j, i))

    def chord_permitted(self, s, j, chord):
        """May this member go on with this chord over this range?"""
        x, k = self.x, self.now
        on = self.goes_on(s, chord)
        must = x.or_(self.isin("chord changes", k), self.isin("key changes", k))
        return x.ite(on, x.not_(must), x.not_(self.refused(s.key, chord)))

    def step_chord(self):
        return self.chord_at(self.j, self.i)

    def tracked_step(self):
        """The tracked step is permitted up to its chord (its member being in the current beam)."""
        x = self.x
        s = self.member(self.sid)
        return x.and_(self.i < self.chord_limit(s, self.j), self.chord_permitted(s, self.j, self.step_chord()))

    def is_tracked(self, s):
        x = self.x
        sid, j, chord = s.src
        return x.and_(sid == self.sid, j == self.j, chord == self.step_chord())

    # key decisions
    def facts_key(self, s):
        self.distinct_facts("key", s.prev_state.change_index, s.change_index)

    def may_keep(self, s):
        x = self.x
        a = s.prev_state.change_index
        n, v = self.count("key", a, s.change_index), self.only("key", a, s.change_index)
        return x.and_(
            x.not_(s.must), n <= 1, x.not_(self.isin("key changes", a)), x.or_(n == 0, s.prev_state.key == v),
            x.or_(self.isin("key non changes", a), n == 1, self.Q(*s.src) <= self.max_keep),
        )

    def may_change(self, s):
        x = self.x
        a = s.prev_state.change_index
        n, v = self.count("key", a, s.change_index), self.only("key", a, s.change_index)
        return x.and_(n <= 1, x.ite(
            self.isin("key changes", a), a > 0, x.and_(
                x.not_(self.isin("key non changes", a)),
                x.ite(n == 1, x.and_(x.not_(s.prev_state.key == v), a > 0), self.Q(*s.src) >= self.min_key),
            )))

    def branches(self, s, key):
        """Whether get_key_change_states branches into key at this state."""
        return self.x.ufun("branches", BOOL, *s.src, key)

    def put(self, role, s):
        """Contract of the lists the search keeps."""
        x = self.x
        mine = x.and_(self.is_tracked(s), self.now == self.c)
        if role == "check":
            x.check("only states after a chord", s.phase == "stepped")
            m = self.member(s.sid)
            sid, j, chord = s.src
            x.check("the member and range at hand", x.and_(sid == self.sid_now, j == self.range_now))
            x.check("a chord that is permitted here", self.chord_permitted(m, j, chord))
            x.check("one of the likeliest chords, or the forced one", x.and_(
                chord == self.chord_at(j, self.pos), self.pos >= 0, self.pos < self.chord_limit(m, j)))
            x.check("a chord that goes on is not a new one", x.iff(s.rejoined, self.goes_on(m, chord)))
            x.check("the chord prior is the one given everything before", s.csm_ok)
            self.in_check = x.or_(self.in_check, x.and_(mine, self.pos == self.i))
            return
        ln = s.change_index - s.prev_state.change_index
        q = self.Q(*s.src)
        x.check("one key decision per chord", s.phase == "decided")
        if role == "keep":
            x.check("the key may stay", self.may_keep(s))
            x.check("probability of no key change, on every input", s.ktm == self.LOG(1 - q) * ln)
            self.in_keep = x.or_(self.in_keep, mine)
        elif role == "change":
            x.check("the key may change", self.may_change(s))
            x.check("probability of a key change, on every input", s.ktm == self.LOG(q) * ln)
            self.in_change = x.or_(self.in_change, mine)
        else:
            raise Unsupported("putting into " + role)

    def element(self, bag, k):
        """State k of a bag."""
        x = self.x
        sid, j, chord, key = bag.ids(k)
        self.range_facts(j)
        x.assume(self.rs(j) == self.now)
        m = self.member(sid)
        x.assume(self.chord_permitted(m, j, chord))
        rejoined = bool(self.goes_on(m, chord))
        f = self.count("chord", self.rs(j), self.re(j))
        x.assume(x.implies(f >= 1, chord == self.only("chord", self.rs(j), self.re(j))))
        s = self.stepped(m, j, chord, rejoined)
        self.facts_key(s)
        x.assume(x.implies(s.prev_state.change_index == 0, self.Q(*s.src) == 0))
        if bag.role == "check":
            return s
        if bag.role == "keep":
            x.assume(self.may_keep(s))
            s.phase = "kept"
        elif bag.role == "change":
            x.assume(self.may_change(s))
            s.phase = "to change"
        elif bag.role == "changed":
            x.assume(self.may_change(s))
            self.new_key(s, key)
            s.phase, s.bag = "keyed", bag
        return s

    def new_key(self, s, key):
        """Contract of get_key_change_states: another key, the forced one if there is one."""
        x = self.x
        a = s.prev_state.change_index
        n, v = self.count("key", a, s.change_index), self.only("key", a, s.change_index)
        x.assume(x.not_(key == s.key))
        x.assume(x.implies(n >= 1, key == v))
        s.key = key

    # callees
    def key_change_probs(self, states, hidden_only=False):
        x = self.x
        if not isinstance(states, Bag):
            raise Unsupported("key change probabilities of something else")
        if hidden_only:
            x.check("only states in a new key read it again", states.role == "changed")
            states.read_ktm = True
            return None
        x.check("key change probabilities of the states after a chord", states.role == "check")

        def q(k):
            sid, j, chord, _ = states.ids(k)
            return self.Q(sid, j, chord)

        return Probs(states, q)

    def key_change_states(self, states, hidden_only=False):
        x = self.x
        if not isinstance(states, Bag):
            raise Unsupported("key changes of something else")
        if hidden_only:
            x.check("only states in a new key read it again", states.role == "changed")
            states.read_ksm = True
            return None
        x.check("key changes of the states that may change", states.role == "change")
        b = Bag(self, "changed")
        s = self.tracked_state()
        if s is not None:
            b.contains_tracked(x.and_(self.now == self.c, self.in_change, self.branches(s, self.nk)), key=self.nk)
        return b

    def tracked_state(self):
        """State of the tracked step (None: not at this position)."""
        if not self.roomy or not self.now == self.c:
            return None
        m = self.member(self.sid)
        s = self.stepped(m, self.j, self.step_chord(), bool(self.goes_on(m, self.step_chord())))
        self.facts_key(s)
        return s

    def run_csm(self, states):
        x = self.x
        if not isinstance(states, Bag) or states.role != "members":
            raise Unsupported("chord sequence model of something else")
        x.check("the chord sequence model reads the states of this position", states.beam.i == self.now)
        self.csm_ran = True


# ---- loop contracts ----------------------------------------------------------------------------------
class Loop(LoopContract):
    def __init__(self, w):
        self.w = w


class Filing(Loop):
    """Ranges by start."""

    needs = ("chord_ranges_dict",)

    def havoc(self, x, L):
        w = self.w
        w.filed = x.fresh_bool("filed")
        w.collecting = L["_k"]
        w.range_facts(L["_k"])
        return {}

    def inv(self, x, L):
        return [("every range so far is filed", x.implies(self.w.j < L["_k"], self.w.filed))]


class Starting(Loop):
    """Initial states."""

    def havoc(self, x, L):
        self.w.started = x.fresh_bool("started")
        return {}

    def inv(self, x, L):
        w = self.w
        w.collecting = None
        it = L["_it"]
        k0 = w.k0 if getattr(type(it), "vc_len", None) else 0
        return [("every first key so far has a state", x.implies(x.and_(w.first_key(w.k0), k0 < L["_k"]), w.started))]


class Positions(Loop):
    """The main loop."""

    needs = ("all_states", "chord_ranges_dict")

    def havoc(self, x, L):
        w = self.w
        w.now = L["_k"]
        w.csm_ran = False
        w.got_kept, w.got_changed = x.fresh_bool("got kept"), x.fresh_bool("got changed")
        w.in_check = w.in_keep = w.in_change = False
        return {}

    def inv(self, x, L):
        w = self.w
        if not w.roomy:
            return []
        if w.now is None:
            return [("every first key has a state", x.implies(w.first_key(w.k0), w.started))]
        if w.now == w.c:
            s = w.tracked_state()
            step = w.tracked_step()
            keep, change = w.may_keep(s), x.and_(w.may_change(s), w.branches(s, w.nk))
        elif w.c < L["_k"]:
            w.now, old = w.c, w.now
            s = w.tracked_state()
            step = w.tracked_step()
            keep, change = w.may_keep(s), x.and_(w.may_change(s), w.branches(s, w.nk))
            w.now = old
        else:
            return []
        done = w.c < L["_k"]
        return [
            ("every permitted step that keeps the key has been taken", x.implies(x.and_(done, step, keep), w.got_kept)),
            ("every permitted step that changes the key has been taken", x.implies(x.and_(done, step, change), w.got_changed)),
        ]


class Pairs(Loop):
    """Members and ranges."""

    needs = ("to_check_for_key_change",)

    def havoc(self, x, L):
        w = self.w
        w.in_check = x.fresh_bool("in check")
        return {"to_check_for_key_change": Bag(w, "check")}

    def inv(self, x, L):
        w = self.w
        empty(L["to_check_for_key_change"])
        if not w.roomy or not w.now == w.c:
            return []
        return [("every permitted chord of the pairs so far is there", x.implies(
            x.and_(L["_it"].where < L["_k"], w.tracked_step()), w.in_check))]


class Branches(Loop):
    """Chords of one member and range."""

    needs = ("to_check_for_key_change", "state")

    def havoc(self, x, L):
        w = self.w
        w.in_check, self.before = x.fresh_bool("in check"), w.in_check
        return {"to_check_for_key_change": L["to_check_for_key_change"]}

    def inv(self, x, L):
        w = self.w
        if not w.roomy or not w.now == w.c:
            return []
        if not isinstance(L["_it"], Chords):
            raise Unsupported("chords")
        x.check("all chords up to the limit, of this range", x.and_(
            L["_it"].n == w.chord_limit(w.member(w.sid_now), w.range_now), L["_it"].row.j is w.range_now))
        me = x.and_(w.sid_now == w.sid, w.range_now == w.j)
        before = self.before if L["_k"] is not 0 else w.in_check  # noqa: F632
        return [
            ("what was there stays", x.implies(before, w.in_check)),
            ("every permitted chord so far is there", x.implies(x.and_(me, w.i < L["_k"], w.tracked_step()), w.in_check)),
        ]


def empty(v):
    if not isinstance(v, Bag) and v != []:
        raise Unsupported("a list that should be empty")


class Decisions(Loop):
    """Key decisions."""

    needs = ("to_csm_prior_states", "to_ksm_states", "to_check_for_key_change")

    def havoc(self, x, L):
        w = self.w
        w.in_keep, w.in_change = x.fresh_bool("in keep"), x.fresh_bool("in change")
        return {"to_csm_prior_states": Bag(w, "keep"), "to_ksm_states": Bag(w, "change")}

    def inv(self, x, L):
        w = self.w
        empty(L["to_csm_prior_states"])
        empty(L["to_ksm_states"])
        bag = L["to_check_for_key_change"]
        if not isinstance(bag, Bag):
            raise Unsupported("states to check")
        s = w.tracked_state()
        if s is None:
            return []
        if L["_k"] is 0:  # noqa: F632 -- entry
            bag.contains_tracked(w.in_check)
        there = x.and_(w.in_check, bag.where < L["_k"])
        return [
            ("states that may keep their key", x.implies(x.and_(there, w.may_keep(s)), w.in_keep)),
            ("states that may change their key", x.implies(x.and_(there, w.may_change(s)), w.in_change)),
        ]


class Adding(Loop):
    def __init__(self, w, role):
        self.w, self.role = w, role

    def havoc(self, x, L):
        w = self.w
        if self.role == "keep":
            w.got_kept = x.fresh_bool("got kept")
        else:
            w.got_changed = x.fresh_bool("got changed")
        return {}

    def inv(self, x, L):
        w = self.w
        bag = L["_it"]
        if not isinstance(bag, Bag) or bag.role != self.role:
            raise Unsupported("states to add")
        s = w.tracked_state()
        entry = L["_k"] is 0  # noqa: F632
        if entry:
            self.before = w.got_kept if self.role == "keep" else w.got_changed
        got = w.got_kept if self.role == "keep" else w.got_changed
        out = [("what was kept stays", x.implies(self.before, got))]
        if s is None:
            return out
        if self.role == "keep":
            if entry:
                bag.contains_tracked(w.in_keep)
            there = w.in_keep
        else:
            there = x.and_(w.in_change, w.branches(s, w.nk))
        return out + [("every state so far is added", x.implies(x.and_(there, bag.where < L["_k"]), got))]


def every_step(x, roomy):
    w = World(x, roomy)
    model_of = jm.csm.PitchBasedChordSequenceModel if w.pitch_based else type("Model", (), {})
    model = object.__new__(model_of)
    model.__dict__.update(use_output_inversions=w.inv, output_reduction=w.red)
    m = object.__new__(jm.HarmonicInferenceModel)
    m.__dict__.update(
        LABELS=w.LABELS, CHORD_OUTPUT_TYPE=w.pt, KEY_OUTPUT_TYPE=w.pt, min_key_change_prob=w.min_key,
        max_no_key_change_prob=w.max_keep, max_chord_branching_factor=w.branching, target_chord_branch_prob=w.target,
        beam_size=w.beam_size, hash_length=w.hash_length, current_piece=Piece(w), debugger=None,
        duration_cache=w.caches[0], onset_cache=w.caches[1], onset_level_cache=w.caches[2],
        forced_chord_ids=Labels(w, "chord"), forced_key_ids=Labels(w, "key"), chord_sequence_model=model,
        initial_chord_model=Icm(),
        **{"forced_" + k.replace(" ", "_"): Members(w, k) for k in ("chord changes", "chord non changes", "key changes", "key non changes")},
    )
    m.get_key_change_probs, m.get_key_change_states, m.run_csm_batched = w.key_change_probs, w.key_change_states, w.run_csm
    x.replace(jm, "np", Numpy(w), "numpy: elementwise meaning of exp, argsort, take_along_axis, cumsum, any, argmax, where, clip, log")
    x.replace(jm, "itertools", Itertools(w), "itertools.product: every pair")
    x.replace(jm, "defaultdict", lambda f: ByStart(w) if f is list else None)
    x.replace(jm, "tqdm", lambda it, **k: it)
    x.replace(jm, "State", lambda key, hash_length=None: Initial(w, key, hash_length), "State: contract C10")
    x.replace(jm, "Beam", lambda size: Beam(w, size, False), "Beam: contract C09")
    x.replace(jm, "HashedBeam", lambda size: Beam(w, size, True))
    x.assumption("get_chord_ranges: contract C11")

    def numbers(*a):
        if len(a) != 1:
            raise Unsupported("range")

        def at(k):
            w.last_index = k
            return k

        return Seq(a[0], at)

    x.replace(jm, "range", numbers)
    for i, c in enumerate((Filing(w), Starting(w), Positions(w), Pairs(w), Branches(w), Decisions(w), Adding(w, "changed"), Adding(w, "keep"))):
        x.loop(LOOP + str(i), c)
    out = x.returns("returns", x.call(
        m.beam_search, Seq(w.m, lambda k: (w.rs(k), w.re(k))), Seq(w.m, w.lp), Seq(w.m, w.rj), Matrix(w, w.PR, "log prior"),
    ))
    if out is None:
        x.check("nothing only when there is no range", w.m == 0)
        return
    x.check("the best state at the end of the piece", isinstance(out, Top) and out is w.top and bool(out.i == w.n))
    if roomy:
        w.now = w.c
        s, step = w.tracked_state(), w.tracked_step()
        x.check("every permitted step that keeps the key is taken", x.implies(x.and_(step, w.may_keep(s)), w.got_kept))
        x.check("every permitted step that changes the key is taken", x.implies(
            x.and_(step, w.may_change(s), w.branches(s, w.nk)), w.got_changed))


class Piece(No):
    def __init__(self, w):
        self.w = w

    def get_inputs(self):
        return Seq(self.w.n, lambda k: None)


class Icm(No):
    def get_prior(self, minor, log=True):
        return ByMode(minor, log)
