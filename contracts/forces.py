"""Ghost state for the proof of _validate_and_load_forced_labels and get_harmony (C18): sets of inputs, labelled ranges and
pieces of any size.  One input (T) and, per kind, two labelled ranges are arbitrary but fixed; whatever index the code itself
singles out (an element it is looking at, a maximum, a common element, a conflicting input) is named when it is found.
"""
from common import *
from argparse import ArgumentError
from pyvc.instrument import LoopContract
from pyvc.seq import Seq
from pyvc.smt import BOOL, INT, REAL
from pyvc.sym import Unsupported
import harmonic_inference.models.joint_model as jm
import harmonic_inference.utils.harmonic_utils as hu
from search import No

LOOP = "models.joint_model.HarmonicInferenceModel._validate_and_load_forced_labels#"
KINDS = ("chord", "key")
CHANGES, NON = "changes", "non_changes"


class Inputs(No):
    """A set of inputs."""

    def __init__(self, w, kind, name):
        self.w, self.kind, self.name = w, kind, name
        self.tag = f"{kind} {name}"
        self.without0, self.n = False, None
        self.tops = []
        x = w.x
        self.where = x.int("place in " + self.tag, 0)
        x.assume(x.implies(w.isin(kind, name, w.T), self.elem(self.where) == w.T))

    def elem(self, k):
        return self.w.x.ufun("element of " + self.tag, INT, k)

    def has(self, i):
        x = self.w.x
        v = self.w.isin(self.kind, self.name, i)
        return x.and_(v, x.not_(i == 0)) if self.without0 else v

    def member(self, i):
        """i is found in the set."""
        x = self.w.x
        x.assume(x.and_(self.has(i), i >= (1 if self.name == NON else 0)))
        for t in self.tops:
            x.assume(i <= t)
        self.w.found.append(i)
        return i

    def __contains__(self, i):
        return bool(self.has(i))

    def remove(self, i):
        if not self.has(i):
            raise KeyError(i)
        self.discard(i)

    def discard(self, i):
        if type(i) is not int or i != 0:
            raise Unsupported("removing another input")
        self.without0, self.n = True, None

    def vc_len(self):
        x, w = self.w.x, self.w
        if self.n is None:
            self.n = x.fresh_int("members")
            x.assume(self.n >= 0)
            x.assume(x.implies(self.has(w.T), self.where < self.n))
        return self.n

    def __bool__(self):
        return bool(self.vc_len() > 0)

    def vc_max(self):
        x = self.w.x
        top = self.member(x.fresh_int("largest"))
        x.assume(x.implies(self.has(self.w.T), self.w.T <= top))
        self.tops.append(top)
        return top

    def __and__(self, o):
        if not isinstance(o, Inputs):
            raise Unsupported("intersection")
        return Common(self.w, self, o)

    intersection = __and__

    def isdisjoint(self, o):
        return not (self & o)

    def __or__(self, o):
        return Either(self.w, self, o)

    union = __or__

    def vc_list(self):
        return Either(self.w, self)

    def vc_at(self, k):
        return self.member(self.elem(k))


class Common(No):
    def __init__(self, w, a, b):
        self.w, self.a, self.b = w, a, b

    def vc_len(self):
        x, w = self.w.x, self.w
        n = x.fresh_int("common members")
        x.assume(n >= 0)
        x.assume(x.implies(n == 0, x.not_(x.and_(self.a.has(w.T), self.b.has(w.T)))))
        q = x.fresh_int("common member")
        x.assume(x.implies(n > 0, x.and_(self.a.has(q), self.b.has(q), q >= 0)))
        w.found.append(q)
        return n

    def __bool__(self):
        return bool(self.vc_len() > 0)


class Either(No):
    """The members of one of several sets."""

    def __init__(self, w, *sets):
        self.w, self.sets = w, sets

    def __or__(self, o):
        return Either(self.w, *self.sets, *(o.sets if isinstance(o, Either) else (o,)))

    def vc_list(self):
        return self

    def has(self, i):
        return self.w.x.or_(*[s.has(i) for s in self.sets])


class Elements(LoopContract):
    """A loop over a set of inputs that refuses some: those passed are not refused.  bad(i): what is refused."""

    def __init__(self, w, which, bad):
        self.w, self.which, self.bad = w, which, bad

    def inv(self, x, L):
        w, s = self.w, L["_it"]
        if not isinstance(s, Inputs):
            raise Unsupported("another loop")
        kind = s.kind
        if self.which is not None and self.which != (kind, s.name) and self.which != s.name:
            raise Unsupported("another loop")
        return [("none so far is refused", x.implies(
            x.and_(s.has(w.T), s.where < L["_k"]), x.not_(self.bad(kind, w.T))))]


class Loading(LoopContract):
    """The labelled ranges."""

    def __init__(self, w):
        self.w = w

    def havoc(self, x, L):
        it = L["_it"]
        self.w.ids[it.kind].forget(L["_k"])
        self.w.at_range = (it.kind, L["_k"])
        return {n: v for n, v in L.items() if v is self.w.ids[it.kind]}

    def inv(self, x, L):
        w, it, k = self.w, L["_it"], L["_k"]
        if not isinstance(it, Ranges):
            raise Unsupported("another loop")
        ids = w.ids[it.kind]
        out = [("labels come from the ranges so far", x.implies(w.T < w.n, ids.justified(w.T, k)))]
        for r in w.tracked[it.kind]:
            out.append(("inputs of a range so far have its label", x.implies(x.and_(w.T < w.n, r < k, w.covers(it.kind, r, w.T)),
                                                                            ids.val(w.T) == w.label(it.kind, r))))
            out.append(("labels so far exist", x.implies(r < k, w.exists(it.kind, w.label(it.kind, r)))))
        return out


class Ranges(No):
    def __init__(self, w, kind):
        self.w, self.kind = w, kind

    def items(self):
        return self

    def vc_len(self):
        return self.w.nranges[self.kind]

    def vc_at(self, k):
        w = self.w
        w.x.assume(w.sane(self.kind, k))
        return ((w.start(self.kind, k), w.end(self.kind, k)), w.label(self.kind, k))


class Ids(No):
    """The forced label of every input."""

    def __init__(self, w, kind):
        self.w, self.kind = w, kind
        self.val = lambda i: -1
        self.src = lambda i: -1
        self.k = 0

    def forget(self, k):
        """After k ranges: whatever the invariant says."""
        w = self.w
        tag = w.fresh(self.kind)
        raw = lambda i: w.x.ufun("label " + tag, INT, i)  # noqa: E731
        src = lambda i: w.x.ufun("label from " + tag, INT, i)  # noqa: E731
        self.k = k

        def val(i):
            x = w.x
            v = raw(i)
            x.assume(x.or_(v == -1, self._from(v, src(i), i, k)))
            for r in w.tracked[self.kind]:
                x.assume(x.implies(x.and_(r < k, w.covers(self.kind, r, i)), v == w.label(self.kind, r)))
            return v

        self.val, self.src = val, src

    def _from(self, v, r, i, k):
        w, x = self.w, self.w.x
        return x.and_(r >= 0, r < k, w.covers(self.kind, r, i), v == w.label(self.kind, r))

    def justified(self, i, k):
        x = self.w.x
        v = self.val(i)
        return x.or_(v == -1, self._from(v, self.src(i), i, k))

    def vc_len(self):
        return self.w.n

    def __getitem__(self, i):
        w = self.w
        if isinstance(i, slice):
            if i.step is not None or i.start is None or i.stop is None:
                raise Unsupported("slice of labels")
            if i.start < 0 or i.stop < 0:
                raise Unsupported("slice of labels")
            return Part(self, i.start, i.stop)
        if i >= w.n or i < -w.n:
            raise IndexError("beyond the piece")
        if i < 0:
            return self.val(i + w.n)
        return self.val(i)

    def __setitem__(self, i, v):
        w = self.w
        if not isinstance(i, slice) or i.step is not None or i.start is None or i.stop is None:
            raise Unsupported("writing labels")
        if i.start < 0 or i.stop < 0 or w.at_range is None or w.at_range[0] != self.kind:
            raise Unsupported("writing labels")
        x, k = w.x, w.at_range[1]
        a, b, old, src = i.start, i.stop, self.val, self.src
        inside = lambda q: x.and_(q >= a, q < b)  # noqa: E731
        self.val = lambda q: x.ite(inside(q), v, old(q))
        self.src = lambda q: x.ite(inside(q), k, src(q))


class Part(No):
    def __init__(self, ids, a, b):
        self.ids, self.a, self.b = ids, a, b

    def __contains__(self, v):
        w = self.ids.w
        if not w.x.and_(self.b - self.a == 2, self.b <= w.n):
            raise Unsupported("slice of labels")
        return bool(w.x.or_(self.ids.val(self.a) == v, self.ids.val(self.a + 1) == v))


class Mask(No):
    def __init__(self, part, values):
        self.part, self.values = part, values

    def __eq__(self, o):
        return self

    __ne__ = __eq__
    __invert__ = lambda self: self  # noqa: E731
    __hash__ = None


class Opaque(No):
    def __getitem__(self, i):
        return self

    def __add__(self, o):
        return self


class Numpy(No):
    """numpy on labels."""

    def __init__(self, w):
        self.w = w

    def isin(self, part, values):
        if not isinstance(part, Part) or not isinstance(values, list):
            raise Unsupported("isin")
        return Mask(part, values)

    def all(self, m):
        if not isinstance(m, Mask):
            raise Unsupported("all")
        x, w = self.w.x, self.w
        p = m.part
        ok = lambda i: x.or_(*[p.ids.val(i) == v for v in m.values])  # noqa: E731
        inside = lambda i: x.and_(i >= p.a, i < p.b, i >= 0, i < w.n)  # noqa: E731
        v = x.fresh_bool("all")
        x.assume(x.implies(v, x.implies(inside(w.T), ok(w.T))))
        q = x.fresh_int("conflict")
        x.assume(x.implies(x.not_(v), x.and_(inside(q), x.not_(ok(q)))))
        w.conflicts.append((p.ids.kind, p.ids.src(q), w.at_range, q))
        return v

    def where(self, m):
        return Opaque()


class Forces:
    def __init__(self, x):
        self.x = x
        self.n, self.T = x.int("inputs", 1), x.int("tracked input", 0)
        self.found, self.conflicts, self.at_range, self.tags = [], [], None, 0
        self.nranges = {k: x.int(f"ranges of {k}s", 0) for k in KINDS}
        self.tracked = {k: (x.int(f"tracked {k} range"), x.int(f"other tracked {k} range")) for k in KINDS}
        for k in KINDS:
            for r in self.tracked[k]:
                x.assume(x.implies(x.and_(r >= 0, r < self.nranges[k]), self.sane(k, r)))
                x.assume(r >= 0)
        x.assume(x.not_(self.isin("chord", NON, 0)))
        x.assume(x.not_(self.isin("key", NON, 0)))
        self.sets = {(k, m): Inputs(self, k, m) for k in KINDS for m in (CHANGES, NON)}
        self.ids = {k: Ids(self, k) for k in KINDS}
        self.size = {}

    def fresh(self, s):
        self.tags += 1
        return f"{s} {self.tags}"

    def isin(self, kind, name, i):
        return self.x.ufun(f"{kind} {name}", BOOL, i)

    def dur(self, i):
        return self.x.ufun("duration", REAL, i)

    def start(self, kind, r):
        return self.x.ufun(kind + " range start", INT, r)

    def end(self, kind, r):
        return self.x.ufun(kind + " range end", INT, r)

    def label(self, kind, r):
        return self.x.ufun(kind + " range label", INT, r)

    def covers(self, kind, r, i):
        return self.x.and_(self.start(kind, r) <= i, i < self.end(kind, r))

    def sane(self, kind, r):
        """Ranges are of inputs."""
        return self.x.and_(self.start(kind, r) >= 0, self.start(kind, r) <= self.end(kind, r))

    def exists(self, kind, v):
        return self.x.and_(v >= 0, v < self.size[kind])

    # contradictions at an input
    def same(self, kind, i):
        x, ids = self.x, self.ids[kind]
        return x.and_(i >= 1, i < self.n, ids.val(i) == ids.val(i - 1), x.not_(ids.val(i) == -1))

    def differ(self, kind, i):
        x, ids = self.x, self.ids[kind]
        a, b = ids.val(i - 1), ids.val(i)
        return x.and_(i >= 1, i < self.n, x.not_(a == b), x.not_(a == -1), x.not_(b == -1))

    def beyond(self, kind, i):
        return i >= self.n

    def late(self, kind, i):
        return self.x.and_(i >= 1, i <= self.n, self.dur(i - 1) == 0)

    def contradiction(self, i):
        x, out = self.x, []
        has = lambda kind, name: x.and_(i >= 1, self.isin(kind, name, i))  # noqa: E731
        for kind in KINDS:
            ch, non = has(kind, CHANGES), has(kind, NON)
            out += [
                x.and_(x.or_(ch, non), self.beyond(kind, i)), x.and_(ch, non), x.and_(ch, self.late(kind, i)),
                x.and_(ch, self.same(kind, i)), x.and_(non, self.differ(kind, i)),
            ]
        out += [
            x.and_(has("key", CHANGES), has("chord", NON)), x.and_(has("key", CHANGES), self.same("chord", i)),
            x.and_(has("chord", NON), self.differ("key", i)),
        ]
        return x.or_(*out)

    def overlap(self, kind, r, s, i):
        x = self.x
        return x.and_(i >= 0, i < self.n, r >= 0, s >= 0, r < self.nranges[kind], s < self.nranges[kind], self.covers(kind, r, i), self.covers(kind, s, i),
                      x.not_(self.label(kind, r) == self.label(kind, s)))


def validated(x, pt, zero):
    """zero: whether a change is forced at the beginning, of the chord and of the key (every combination is proved apart)."""
    w = Forces(x)
    for kind, v in zip(KINDS, zero):
        x.assume(x.iff(w.isin(kind, CHANGES, 0), v))
    inversions, reduction, asked = Opaque(), Opaque(), []
    w.size = {"chord": x.int("number of chords", 1), "key": 2 * NPITCH[pt]}
    m = object.__new__(jm.HarmonicInferenceModel)
    m.duration_cache = Seq(w.n, w.dur)
    m.chord_classifier = type("Ccm", (), dict(OUTPUT_PITCH=pt, use_inversions=inversions, reduction=reduction))()

    def size(pitch_type, one_hot=True, relative=True, use_inversions=True, relative_to=None, pad=False, reduction_=None, **k):
        red = k.pop("reduction", reduction_)
        if k:
            raise Unsupported("length of chord vectors")
        x.check("the chords the classifier knows", pitch_type is pt and one_hot is True and relative is False and pad is False
                and use_inversions is inversions and red is reduction)
        return w.size["chord"]

    x.replace(jm, "get_chord_vector_length", size, "get_chord_vector_length: contract C02")
    m.key_sequence_model = type("Ksm", (), dict(OUTPUT_PITCH_TYPE=pt))()
    for kind in KINDS:
        setattr(m, f"forced_{kind}_ids", w.ids[kind])
        setattr(m, f"forced_{kind}s", Ranges(w, kind))
        for name in (CHANGES, NON):
            setattr(m, f"forced_{kind}_{name}", w.sets[kind, name])
    x.replace(jm, "np", Numpy(w), "numpy: isin and all over a slice")
    for i, c in enumerate((
        None,
        Elements(w, CHANGES, w.late),
        Loading(w),
        Elements(w, CHANGES, w.same),
        Elements(w, NON, w.differ),
        Elements(w, ("key", CHANGES), lambda kind, i: x.or_(x.and_(i >= 1, w.isin("chord", NON, i)), w.same("chord", i))),
        Elements(w, ("chord", NON), lambda kind, i: w.differ("key", i)),
    )):
        if c is not None:
            x.loop(LOOP + str(i), c)
    r = x.call(m._validate_and_load_forced_labels)
    if not r.ok:
        x.check("refused with a message", r.raised(ArgumentError))
        why = [w.contradiction(i) for i in w.found]
        if w.at_range is not None:
            kind, k = w.at_range
            why.append(x.and_(k >= 0, k < w.nranges[kind], x.not_(w.exists(kind, w.label(kind, k)))))
        why += [w.overlap(kind, s, at[1], q) for kind, s, at, q in w.conflicts]
        x.check("refused only when contradictory", x.or_(*why) if why else False)
        return
    x.check("no contradiction at any input", x.not_(w.contradiction(w.T)))
    for kind in KINDS:
        a, b = w.tracked[kind]
        x.check(f"every forced {kind} exists", x.implies(a < w.nranges[kind], w.exists(kind, w.label(kind, a))))
        x.check(f"no two {kind}s forced at one input", x.not_(w.overlap(kind, a, b, w.T)))
        x.check(f"every input has its forced {kind}", x.implies(
            x.and_(w.T < w.n, a < w.nranges[kind], w.covers(kind, a, w.T)), w.ids[kind].val(w.T) == w.label(kind, a)))
        x.check(f"no other input has a forced {kind}", x.implies(w.T < w.n, w.ids[kind].justified(w.T, w.nranges[kind])))
        x.check("a change at the beginning is ignored", x.not_(w.sets[kind, CHANGES].has(0)))
        x.check("the sets otherwise stay", x.implies(w.T >= 1, x.iff(w.sets[kind, CHANGES].has(w.T), w.isin(kind, CHANGES, w.T))))


# ---- get_harmony -------------------------------------------------------------------------------------
class Probabilities(No):
    """The change probability of each input; changed in place."""

    def __init__(self, w, n):
        self.w, self.n = w, n
        self.fn = lambda i: w.x.ufun("change probability", REAL, i)

    def vc_len(self):
        return self.n

    def vc_at(self, k):
        return self.fn(k)

    def __getitem__(self, i):
        return self.fn(i)

    def __setitem__(self, i, v):
        if isinstance(i, Inputs):
            raise Unsupported("a set as an index")
        x, old = self.w.x, self.fn
        if isinstance(i, Either):
            self.fn = lambda k: x.ite(i.has(k), v, old(k))
        elif isinstance(i, Seq) or isinstance(i, slice):
            raise Unsupported("writing probabilities")
        else:
            self.fn = lambda k: x.ite(k == i, v, old(k))


def applied(x):
    w = Forces(x)
    x.assume(w.T < w.n)
    m = object.__new__(jm.HarmonicInferenceModel)
    for kind in KINDS:
        for name in (CHANGES, NON):
            setattr(m, f"forced_{kind}_{name}", w.sets[kind, name])
    p = Probabilities(w, w.n)
    before = p.fn(w.T)
    x.returns("returns", x.call(m._apply_forced_chord_changes, p))
    check_applied(w, p, before)


def check_applied(w, p, before):
    x, T = w.x, w.T
    has = lambda kind, name: w.sets[kind, name].has(T)  # noqa: E731
    on, off = x.or_(has("chord", CHANGES), has("key", CHANGES)), has("chord", NON)
    consistent = x.not_(x.and_(on, off))
    x.check("forced chord changes and key changes get probability one", x.implies(x.and_(on, consistent), p.fn(T) == 1))
    x.check("forced chord non-changes get probability zero", x.implies(x.and_(off, consistent), p.fn(T) == 0))
    x.check("others are kept", x.implies(x.not_(x.or_(on, off)), p.fn(T) == before))


class Note(No):
    def __init__(self, w, i):
        x = w.x
        self.i = i
        self.__dict__.update({n: x.ufun(n, INT, i) for n in ("onset", "offset", "onset_level", "offset_level")})


class Token(No):
    pass


def harmony(x):
    w = Forces(x)
    x.assume(w.T < w.n)
    m = object.__new__(jm.HarmonicInferenceModel)
    other = x.choice("piece of another type", [False, True])
    given = x.choice("given", [True, False])
    piece, kind_of = Token(), Token()
    notes, cache = Seq(w.n, lambda i: Note(w, i)), Seq(w.n, w.dur)
    piece.DATA_TYPE = Token() if other else kind_of
    piece.get_inputs = lambda: notes
    piece.get_duration_cache = lambda: cache
    m.__dict__.update(INPUT_TYPE=kind_of, max_chord_branching_factor=Token(), max_key_branching_factor=Token(), current_piece=None)
    names = [f"forced_{k}_{n}" for k in KINDS for n in (CHANGES, NON)]
    args = {f"forced_{k}_{n}": w.sets[k, n] for k in KINDS for n in (CHANGES, NON)}
    args.update({f"forced_{k}s": Ranges(w, k) for k in KINDS})
    steps, refusal = [], ArgumentError(None, "refused")

    class Full:
        @staticmethod
        def full(n, v):
            x.check("no label is forced at first", x.and_(n == w.n, v == -1))
            return Ids(w, None)

    Full = type("Np", (No,), {"full": staticmethod(Full.full)})()

    def ready():
        x.check("the piece is at hand", m.current_piece is piece)
        x.check("its durations", m.duration_cache is cache)
        for name, last in (("onset", "offset"), ("onset_level", "offset_level")):
            v = getattr(m, name + "_cache")
            x.check(f"{name}s of the inputs and of the end", x.and_(
                v.vc_len() == w.n + 1, v.vc_at(w.T) == getattr(notes.vc_at(w.T), name), v.vc_at(w.n) == getattr(notes.vc_at(w.n - 1), last)))
        for k in KINDS:
            if given:
                x.check("the given forces", getattr(m, f"forced_{k}s") is args[f"forced_{k}s"] and all(
                    getattr(m, f"forced_{k}_{n}") is args[f"forced_{k}_{n}"] for n in (CHANGES, NON)))
            else:
                x.check("no forces", getattr(m, f"forced_{k}s") == {} and all(getattr(m, f"forced_{k}_{n}") == set() for n in (CHANGES, NON)))

    def validate():
        ready()
        x.check("labels of its own for chords and keys", type(m.forced_chord_ids) is Ids and type(m.forced_key_ids) is Ids
                and m.forced_chord_ids is not m.forced_key_ids)
        steps.append("validate")
        if x.choice("refused", [False, True]):
            raise refusal

    probs = Probabilities(w, w.n)
    before = probs.fn(w.T)
    ranges = Seq(x.int("possible chords", 0), lambda j: (x.ufun("start", INT, j), x.ufun("end", INT, j)))
    lps, rejoins, priors, found = Token(), Token(), Token(), x.choice("found", [Token(), None])
    j = x.int("tracked chord")
    x.assume(x.and_(j >= 0, j < ranges.n))
    for q in (j,):
        x.assume(x.and_(ranges.vc_at(q)[0] >= 0, ranges.vc_at(q)[0] < ranges.vc_at(q)[1], ranges.vc_at(q)[1] <= w.n))

    def change_probs():
        ready()
        steps.append("probs")
        return probs

    def apply(p):
        x.check("the probabilities of this piece", p is probs)
        steps.append("apply")

    def get_ranges(p):
        x.check("forces enter the probabilities before the ranges", p is probs and steps == ["validate", "probs", "apply"])
        steps.append("ranges")
        return ranges, lps, rejoins

    def range_start(onset, ns):
        x.check("the notes of the piece", ns is notes)
        return x.ufun("window start", INT, onset)

    def classify(windows, change_indices):
        x.check("after the ranges", steps[-1] == "ranges")
        x.check("one window per possible chord", x.and_(windows.vc_len() == ranges.n, change_indices.vc_len() == ranges.n))
        a, b = windows.vc_at(j)
        start, end = ranges.vc_at(j)
        x.check("from the first note that sounds at its start to its end", x.and_(
            a == x.ufun("window start", INT, notes.vc_at(start).onset), b == end))
        x.check("with its own start", change_indices.vc_at(j) == start)
        steps.append("classify")
        return priors

    def search(chord_ranges, range_log_probs, rejoin_log_probs, chord_classifications):
        ready()
        x.check("searched with what was found for this piece", steps[-1] == "classify" and chord_ranges is ranges
                and range_log_probs is lps and rejoin_log_probs is rejoins and chord_classifications is priors)
        steps.append("search")
        return found

    m.__dict__.update(
        _validate_and_load_forced_labels=validate, get_chord_change_probs=change_probs, _apply_forced_chord_changes=apply,
        get_chord_ranges=get_ranges, get_chord_classifications=classify, beam_search=search,
    )
    x.replace(jm, "np", Full)
    x.replace(jm, "get_range_start", range_start, "get_range_start: contract C15")
    x.replace(jm, "DebugLogger", lambda *a, **k: None)
    x.assumption("get_chord_ranges: contract C11; beam_search: contract C17")
    # positions the comprehension over the ranges looks at are positions of ranges
    old = ranges.fn

    def sane(q):
        a, b = old(q)
        x.assume(x.and_(a >= 0, a < b, b <= w.n))
        return a, b

    ranges.fn = sane
    r = x.call(m.get_harmony, piece, **(args if given else {}))
    if other:
        x.check("a piece of another type is refused", r.raised(AssertionError))
        return
    if not r.ok:
        x.check("refused exactly when the forces are", r.exc is refusal and steps == ["validate"])
        x.check("the piece is let go", m.current_piece is None)
        return
    x.check("what the search finds is returned", r.value is found and steps == ["validate", "probs", "apply", "ranges", "classify", "search"])
    x.check("the piece is let go", m.current_piece is None)
    del before


# ---- the models' answers -----------------------------------------------------------------------------
class Part2(No):
    def __init__(self, w, a, b):
        self.w, self.a, self.b = w, a, b


class Answer(No):
    def __init__(self, r, log=False, plain=False):
        self.r, self.log, self.plain = r, log, plain

    def numpy(self):
        return Answer(self.r, self.log, True)


class Collected(No):
    """The answers collected so far."""

    def __init__(self, w, n, fn):
        self.w, self.n, self.fn = w, n, fn

    def vc_len(self):
        return self.n

    def vc_at(self, k):
        return self.fn(k)

    def extend(self, more):
        if not isinstance(more, Seq):
            raise Unsupported("extending")
        x, a, old = self.w.x, self.n, self.fn

        def fn(k):
            if k < a:
                return old(k)
            return more.vc_at(k - a)

        self.n, self.fn = a + more.vc_len(), fn

    def __iadd__(self, more):
        self.extend(more)
        return self


class Collect(LoopContract):
    needs = ("classifications",)

    def __init__(self, w):
        self.w = w

    def havoc(self, x, L):
        w = self.w
        tag = w.fresh("collected")

        def fn(k):
            return Answer(x.ufun(tag, INT, k), plain=True)

        return {"classifications": Collected(w, x.fresh_int("collected"), fn)}

    def inv(self, x, L):
        w, c, k = self.w, L["classifications"], L["_k"]
        if isinstance(c, list) and not c:
            n, at = 0, True
        elif isinstance(c, Collected):
            n = c.n
            if w.r < n:
                v = c.vc_at(w.r)
                at = x.and_(v.plain and not v.log, v.r == w.r)
            else:
                at = True
        else:
            raise Unsupported("collected answers")
        x.assume(x.and_(w.cut(k) >= 0, w.cut(k) <= w.m))
        return [("one answer for every window so far", n == w.cut(k)), ("each in its place", at)]


def classified(x):
    w = Forces(x)
    w.m, w.r = x.int("possible chords", 0), x.int("tracked chord")
    w.batches = x.int("batches", 0)
    w.cut = lambda k: x.ufun("cut", INT, k)
    x.assume(x.and_(w.r >= 0, w.r < w.m, w.cut(0) == 0, w.cut(w.batches) == w.m))
    m = object.__new__(jm.HarmonicInferenceModel)
    piece, ranges, changes, settings = Token(), Token(), Token(), Token()
    made, setting = [], {"reduction": Token(), "use_inversions": Token(), "transposition_range": [-3, 4]}
    m.current_piece = piece

    class Dataset:
        valid_batch_size = Token()

        def __init__(self, pieces, transform=None, ranges=None, change_indices=None, dummy_targets=False, **k):
            self.args = (pieces, transform, ranges, change_indices, dummy_targets, k)

    def load(d, batch_size=1, shuffle=False, **k):
        if k or type(d) is not Dataset:
            raise Unsupported("data loader")
        pieces, transform, rs, cs, dummy, kw = d.args
        x.check("the windows of this piece", len(pieces) == 1 and pieces[0] is piece and len(rs) == 1 and rs[0] is ranges
                and len(cs) == 1 and cs[0] is changes and transform is None)
        x.check("no chords of its own are needed", dummy is True)
        x.check("nothing is transposed", tuple(kw.pop("transposition_range", (0, 0))) == (0, 0))
        x.check("prepared as the classifier wants it", {n: v for n, v in kw.items()} == {
            n: v for n, v in setting.items() if n != "transposition_range"})
        x.check("in order", shuffle is False)

        def batch(k):
            a, b = w.cut(k), w.cut(k + 1)
            x.assume(x.and_(a >= 0, a <= b, b <= w.m))
            return Part2(w, a, b)

        made.append(d)
        return Seq(w.batches, batch)

    class Classifier(No):
        @staticmethod
        def get_dataset_kwargs():
            return dict(setting)

        @staticmethod
        def get_output(b):
            if not isinstance(b, Part2):
                raise Unsupported("batch")
            return Seq(b.b - b.a, lambda i: Answer(b.a + i))

    m.chord_classifier = Classifier()

    class Np(No):
        def log(self, c):
            if not isinstance(c, Collected):
                raise Unsupported("log")

            def fn(k):
                v = c.vc_at(k)
                x.check("the probabilities themselves", v.plain and not v.log)
                return Answer(v.r, True, True)

            return Collected(w, c.n, fn)

    x.replace(jm, "np", Np(), "numpy.log: elementwise")
    x.replace(jm.ds, "ChordClassificationDataset", Dataset, "ChordClassificationDataset: contract C14")
    x.replace(jm, "DataLoader", load, "DataLoader: batches in order")
    x.replace(jm, "tqdm", lambda it, **k: it)
    x.loop("models.joint_model.HarmonicInferenceModel.get_chord_classifications#0", Collect(w))
    out = x.returns("returns", x.call(m.get_chord_classifications, ranges, changes))
    x.check("asked once", len(made) == 1)
    x.check("one classification per window", isinstance(out, Collected) and bool(out.n == w.m))
    v = out.vc_at(w.r)
    x.check("each the logarithm of the classifier's answer for its own window", x.and_(v.log, v.r == w.r))


def changes_asked(x):
    w = Forces(x)
    m = object.__new__(jm.HarmonicInferenceModel)
    piece, made = Token(), []
    m.current_piece = piece
    padded = x.int("padded length", 0)
    x.assume(padded >= w.n)

    class Dataset:
        valid_batch_size = Token()

        def __init__(self, pieces, transform=None, dummy_targets=False):
            self.args = (pieces, transform, dummy_targets)

    def load(d, batch_size=1, shuffle=False, **k):
        if k or type(d) is not Dataset:
            raise Unsupported("data loader")
        pieces, transform, dummy = d.args
        x.check("the notes of this piece", len(pieces) == 1 and pieces[0] is piece and transform is None)
        x.check("no chords of its own are needed", dummy is True)
        made.append(d)
        return [made]

    class Row(No):
        def __init__(self, n, plain=False):
            self.n, self.plain = n, plain

        def __getitem__(self, i):
            if not isinstance(i, slice) or i.start is not None or i.step is not None:
                raise Unsupported("part of an answer")
            return Row(x.ite(i.stop < self.n, i.stop, self.n), self.plain)

        def numpy(self):
            return Row(self.n, True)

    class Ctm(No):
        @staticmethod
        def get_output(b):
            if b is not made:
                raise Unsupported("batch")
            return [Row(padded)], [w.n]

    m.chord_transition_model = Ctm()
    x.replace(jm.ds, "ChordTransitionDataset", Dataset, "ChordTransitionDataset: contract C14")
    x.replace(jm, "DataLoader", load, "DataLoader: batches in order")
    out = x.returns("returns", x.call(m.get_chord_change_probs))
    x.check("the model's answer, one for each input", isinstance(out, Row) and out.plain and bool(out.n == w.n))
