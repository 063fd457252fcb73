"""C10: what a search state says: its history, its key and chord, and exactly what its probability is made of."""
from common import *
from fractions import Fraction
import numpy as np
from pyvc.smt import REAL, INT
from pyvc.sym import Unsupported
from c02 import INV, index_spec
from c07 import tones
from harmonic_inference.data.key import Key
import harmonic_inference.utils.beam_search_utils as bs
from harmonic_inference.utils.beam_search_utils import State

BS = "harmonic_inference.utils.beam_search_utils:State."
CHORDS = [101, 202]  # ids: only their labels matter
KEYS = [11, 22]


def bass_of(pt, t, root, inv):
    v = tones(t, pt)[inv] + root
    return v % 12 if pt == MIDI else v


class Any:
    """An arbitrary value: may be stored, passed on and compared with itself, never looked into."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported("looking into " + self.name)


class Setting:
    """Two chords, two keys, with any labels; a previous state with any history behind it."""

    def __init__(self, x, history=True):
        self.x = x
        self.pt = pt = x.choice("pitch type", PITCH_TYPES)
        n = NPITCH[pt]
        self.chord, self.key, self.bass = {}, {}, {}
        for c in CHORDS:
            root = x.int(f"root {c}", 0, n)
            if x.symbolic:
                t, inv = Any(f"type {c}"), Any(f"inversion {c}")
                b = x.int(f"bass {c}", 0, n)
            else:
                t = x.choice(f"type {c}", TYPES)
                inv = x.choice(f"inv {c}", range(INV[t]))
                b = bass_of(pt, t, root, inv)
                x.assume(0 <= b < n)
            self.chord[c] = (root, t, inv)
            self.bass[c] = b
        for k in KEYS:
            self.key[k] = (x.int(f"tonic {k}", 0, n), self.mode(f"mode {k}"))
        self.labels = {"chord": self.chord, "key": self.key}
        if x.symbolic:
            x.stub(bs.hu, "get_bass_note", self.bass_contract)
        self.gt, self.gm = x.int("global tonic", 0, n), self.mode("global mode")
        self.L = x.choice("hash length", [None, 2] if x.symbolic else [None, 1, 2, 3])

    def mode(self, name):
        return Any(name) if self.x.symbolic else self.x.choice(name, MODES)

    def bass_contract(self, chord_type, root, inversion, pitch_type, modulo=False):
        for c, (r, t, i) in self.chord.items():
            if root is r and chord_type == t and inversion == i and pitch_type == self.pt:
                return self.bass[c]
        raise Unsupported("bass note of another chord")

    def past(self, name, key):
        """A state with an arbitrary history: known only through the contract of its methods."""
        x = self.x
        s = State(
            chord=CHORDS[1],
            key=key,
            change_index=x.int(name + " end", 0, 1000),
            log_prob=x.real(name + " lp"),
            csm_hidden_state=name + " csm",
            ktm_hidden_state=name + " ktm",
            ksm_hidden_state=name + " ksm",
            csm_log_prior=name + " prior",
        )
        if self.L is not None:
            s.hash_tuple = tuple((name, i) for i in range(self.L))
        t, m = self.key[key]
        s.key_obj = Key(t, t, self.gt, m, m, self.gm, self.pt)
        return s

    def current(self, prev, key=None, recent=True):
        x = self.x
        opt = lambda n: x.real(n) if recent and x.choice("has " + n, [True, False]) else None  # noqa: E731
        s = State(
            chord=CHORDS[0],
            key=prev.key if key is None else key,
            change_index=x.int("end", 0, 1000),
            log_prob=x.real("lp"),
            prev_state=prev,
            hash_length=self.L,
            csm_hidden_state="csm",
            ktm_hidden_state="ktm",
            ksm_hidden_state="ksm",
            csm_log_prior="prior",
            must_key_transition=x.choice("must change key", [False, True]),
            most_recent_csm=opt("csm part"),
            most_recent_ksm=opt("ksm part"),
            most_recent_ktm=opt("ktm part"),
        )
        return s

    def window(self, c, tonic, pad):
        x = self.x
        lo, hi = REL_MIN - pad, REL_MAX + pad
        rr, rb = self.chord[c][0] - tonic, self.bass[c] - tonic
        return x.and_(rr >= lo, rr < hi, rb >= lo, rb < hi)

    def same_key(self, s, key):
        x = self.x
        k = x.returns("key of the state", x.call(s.get_key, self.pt, self.labels))
        t, m = self.key[key]
        return x.and_(
            s.key == key,
            k.relative_tonic == t,
            k.local_tonic == t,
            k.relative_mode == m,
            k.local_mode == m,
            k.global_tonic == self.gt,
            k.global_mode == self.gm,
            k.tonic_type == self.pt,
        )

    def caches(self):
        x = self.x
        if x.symbolic:
            return Cache(x, "dur", REAL), Cache(x, "onset", INT), Cache(x, "level", INT)
        return (np.array([Fraction(i % 7, 8) for i in range(1000)]), [(i // 4, Fraction(i % 4, 4)) for i in range(1001)],
                [i * i % 4 for i in range(1001)])

    def read(self, s):
        """The state may have been asked for its key and chord before."""
        if self.x.choice("asked before", [False, True]):
            s.get_key(self.pt, self.labels)
            s.get_chord(self.pt, *self.caches(), self.labels)

    def same_chord(self, s, prev, key):
        """The chord object of a state: in its key, from the previous end to its own."""
        x = self.x
        dur, on, lev = self.caches()
        c = x.returns("chord of the state", x.call(s.get_chord, self.pt, dur, on, lev, self.labels))
        root, t, i = self.chord[CHORDS[0]]
        a, b = prev.change_index, s.change_index
        total = x.ufun("sum dur", REAL, a, b) if x.symbolic else sum(dur[a:b])
        return x.and_(
            c.root == root, c.bass == self.bass[CHORDS[0]], c.chord_type == t, c.inversion == i,
            c.key_tonic == self.key[key][0], c.key_mode == self.key[key][1],
            c.onset == on[a], c.onset_level == lev[a], c.offset == on[b], c.offset_level == lev[b], c.duration == total,
        )

    def hash_of(self, s):
        return s.get_hash() if self.L is not None else None


def snap(s):
    return [s.chord, s.key, s.change_index, s.log_prob, s.prev_state, s.csm_log_prior, getattr(s, "hash_tuple", None)]


def unchanged(x, label, s, before):
    x.check(label, all(a is b or a == b for a, b in zip(snap(s), before)))


def hidden(x, label, s, csm, ktm, ksm, prior):
    x.check(
        label,
        (s.csm_hidden_state, s.ktm_hidden_state, s.ksm_hidden_state, s.csm_log_prior) == (csm, ktm, ksm, prior),
    )


@harness([BS + "chord_transition", BS + "__init__"])
def chord_transition(x):
    """A new chord: refused exactly when root or bass is beyond the padded window around the tonic, must change
    key exactly beyond the unpadded one; the probability grows by exactly the given amount; the rest carries over."""
    S = Setting(x)
    key = x.choice("key", KEYS)
    s = S.past("past", key)
    lp, end = x.real("step lp"), x.int("new end", 0, 1000)
    before = snap(s)
    out = x.returns("returns", x.call(s.chord_transition, CHORDS[0], end, lp, S.pt, S.labels))
    tonic = S.key[key][0]
    x.check("refused exactly outside the padded window", x.iff(out is None, x.not_(S.window(CHORDS[0], tonic, REL_PAD))))
    unchanged(x, "the old state stays as it was", s, before)
    if out is None:
        return
    x.check("key change due exactly outside the window", x.iff(out.is_valid(check_key=True), S.window(CHORDS[0], tonic, 0)))
    x.check("live", out.is_valid())
    x.check("probability", out.log_prob == s.log_prob + lp)
    x.check("chord, extent, predecessor", out.chord == CHORDS[0] and out.prev_state is s and out.change_index is end)
    x.check("key carries over", S.same_key(out, key))
    x.check("chord", S.same_chord(out, s, key))
    hidden(x, "model memory carries over", out, "past csm", "past ktm", "past ksm", "past prior")
    if S.L is not None:
        x.check("recent history", out.get_hash() == s.hash_tuple[1:] + ((key, CHORDS[0]),))
    again = x.returns("rejoin returns", x.call(out.rejoin, end, lp, S.pt, S.labels))
    x.check("a fresh transition has no model parts yet", again.log_prob == s.log_prob + lp + lp)


@harness([BS + "key_transition", BS + "get_key"])
def key_transition(x):
    """A new key on the latest chord: refused exactly outside its window; the same chord and extent; the key's
    probability counts as the step's key part; key models start over from the previous state's memory."""
    S = Setting(x)
    k0, k1 = x.choice("previous key", KEYS), x.choice("new key", KEYS)
    p = S.past("past", k0)
    s = S.current(p)
    # the state's own key part is replaced, not kept
    s.most_recent_ksm = None
    lp = x.real("step lp")
    S.read(s)
    before = snap(s)
    out = x.returns("returns", x.call(s.key_transition, k1, lp, S.pt, S.labels))
    x.check("refused exactly outside the window", x.iff(out is None, x.not_(S.window(CHORDS[0], S.key[k1][0], 0))))
    unchanged(x, "the old state stays as it was", s, before)
    if out is None:
        return
    x.check("valid", out.is_valid(check_key=True))
    x.check("probability", out.log_prob == s.log_prob + lp)
    x.check("same chord, extent and predecessor", out.chord == CHORDS[0] and out.prev_state is p)
    x.check("same extent", out.change_index == s.change_index)
    x.check("new key", S.same_key(out, k1))
    x.check("chord in the new key", S.same_chord(out, p, k1))
    hidden(x, "model memory", out, "csm", "past ktm", "past ksm", "prior")
    if S.L is not None:
        x.check("recent history", out.get_hash() == p.hash_tuple[1:] + ((k1, CHORDS[0]),))
    a = x.returns("rejoin returns", x.call(s.rejoin, s.change_index, lp, S.pt, S.labels))
    b = x.returns("rejoin returns", x.call(out.rejoin, s.change_index, lp, S.pt, S.labels))
    x.check("undoing the step undoes the key change completely", x.and_(a.log_prob == b.log_prob, a.key == b.key))
    if S.L is not None:
        x.check("and its history", a.get_hash() == b.get_hash())


@harness([BS + "rejoin"])
def rejoin(x):
    """Extending the latest chord: the step's chord-sequence, key-sequence and key-transition parts leave the
    probability, the given amount enters; key and model memory return to those before the step."""
    S = Setting(x)
    k0 = x.choice("previous key", KEYS)
    k1 = x.choice("current key", KEYS)
    p = S.past("past", k0)
    s = S.current(p, k1)
    lp, end = x.real("step lp"), x.int("new end", 0, 1000)
    S.read(s)
    before = snap(s)
    parts = [v for v in (s.most_recent_csm, s.most_recent_ksm, s.most_recent_ktm) if v is not None]
    out = x.returns("returns", x.call(s.rejoin, end, lp, S.pt, S.labels))
    unchanged(x, "the old state stays as it was", s, before)
    want = s.log_prob + lp
    for v in parts:
        want = want - v
    x.check("probability", out.log_prob == want)
    x.check("same chord, predecessor; new extent", out.chord == CHORDS[0] and out.prev_state is p and out.change_index is end)
    x.check("key of the step before", S.same_key(out, k0))
    x.check("chord in the key of the step before, up to the new end", S.same_chord(out, p, k0))
    x.check("key change due exactly outside the window", x.iff(out.is_valid(check_key=True), S.window(CHORDS[0], S.key[k0][0], 0)))
    hidden(x, "model memory of the step before", out, "past csm", "past ktm", "past ksm", "past prior")
    if S.L is not None:
        x.check("recent history", out.get_hash() == p.hash_tuple[1:] + ((k0, CHORDS[0]),))
    again = x.returns("rejoin returns", x.call(out.rejoin, end, lp, S.pt, S.labels))
    x.check("nothing left to remove", again.log_prob == want + lp)


@harness([BS + "copy", BS + "add_ktm_log_prob"])
def copying(x):
    """A copy says the same as its original and is independent of it; the key-transition part is added once and
    removed again by a rejoin."""
    S = Setting(x)
    k0, k1 = KEYS
    p = S.past("past", k0)
    s = S.current(p, k1)
    S.read(s)
    c = x.returns("copy returns", x.call(s.copy))
    x.check("a different object", c is not s)
    x.check("same chord, key, extent, predecessor", c.chord == s.chord and c.key == s.key and c.prev_state is p)
    x.check("same extent and probability", x.and_(c.change_index == s.change_index, c.log_prob == s.log_prob))
    x.check("same key object", S.same_key(c, k1))
    x.check("same chord object", S.same_chord(c, p, k1))
    hidden(x, "same model memory", c, "csm", "ktm", "ksm", "prior")
    x.check("same validity", c.is_valid(check_key=True) == s.is_valid(check_key=True))
    if S.L is not None:
        x.check("same recent history", c.get_hash() == s.get_hash())
    lp, q = x.real("ktm"), x.real("step lp")
    a = x.returns("rejoin returns", x.call(s.rejoin, s.change_index, q, S.pt, S.labels))
    b = x.returns("rejoin returns", x.call(c.rejoin, s.change_index, q, S.pt, S.labels))
    x.check("rejoins alike", a.log_prob == b.log_prob)
    old = s.log_prob
    s2 = State(chord=CHORDS[0], key=k1, prev_state=p, log_prob=old, change_index=s.change_index, hash_length=S.L)
    x.returns("add returns", x.call(s2.add_ktm_log_prob, lp))
    x.check("key-transition part added", s2.log_prob == old + lp)
    x.returns("add returns", x.call(c.add_ktm_log_prob, lp))
    x.check("original untouched", s.log_prob == old)
    r = x.returns("rejoin returns", x.call(s2.rejoin, s.change_index, q, S.pt, S.labels))
    x.check("and removed by a rejoin", r.log_prob == old + q)


# ---- chord prior -----------------------------------------------------------------------------------
class Prior:
    """Any vector of log-probabilities."""

    def __init__(self, x, name):
        self.x, self.name = x, name

    def __getitem__(self, i):
        return self.x.ufun("prior", REAL, i)

    def __deepcopy__(self, memo):
        return self


RED = "harmonic_inference.data.vector_decoding.reduce_chord_one_hots"


@harness([BS + "add_csm_prior", BS + "get_relative_chord_index"])
def chord_prior(x):
    """The chord-sequence part: the predicted log-probability of the chord relative to the state's key (in the
    model's reduced vocabulary; the full one on the first chord), once per input covered; a rejoin removes it."""
    S = Setting(x)
    k = KEYS[0]
    p = S.past("past", k)
    first = x.choice("first chord", [True, False])
    if first:
        p.change_index = 0
    elif x.symbolic:
        x.assume(p.change_index > 0)
    else:
        p.change_index = p.change_index + 1
    ln = x.int("inputs covered", 1, 50)
    lp = x.real("lp")
    red, inv = x.choice("reduction", [None, TRIAD_REDUCTION] if x.symbolic else REDUCTIONS), x.choice("inversions", [True, False])
    c = CHORDS[0]
    root, t, i = S.chord[c]
    tonic = S.key[k][0]
    x.assume(S.window(c, tonic, 0))
    s = State(chord=c, key=k, change_index=p.change_index + ln, log_prob=lp, prev_state=p, hash_length=S.L, key_obj=p.key_obj)
    eff_red, eff_inv = (None, True) if first else (red, inv)
    if x.symbolic:
        if x.mode_unroll is not None:
            raise Unsupported("no bounded form")
        s.csm_log_prior = Prior(x, "prior")
        idx = x.int("relative index", 0, 5000)
        x.stub(State, "get_relative_chord_index", lambda self, *a: idx if self is s else _no())
        ridx = x.int("reduced index", 0, 5000)

        def reduce(one_hots, pad=False, pitch_type=None, inversions_present=True, reduction_present=None, relative=True, reduction=None, use_inversions=True):
            good = (
                len(one_hots) == 1
                and one_hots[0] is idx
                and not pad
                and pitch_type == S.pt
                and inversions_present is True
                and reduction_present in (None, NO_REDUCTION)
                and relative is True
            )
            if not good:
                raise Unsupported("reduction of something else")
            x.check("reduced to the vocabulary of the prior", (reduction or NO_REDUCTION) == (eff_red or NO_REDUCTION) and use_inversions == eff_inv)
            return [ridx]

        x.stub(bs, "reduce_chord_one_hots", reduce)
        part = x.ufun("prior", REAL, ridx) * ln
        args = (None, None, None)
    else:
        rel = (root - tonic) % 12 if S.pt == MIDI else root - tonic - REL_MIN
        full = index_spec(S.pt, True, True, False, None, t, rel, i)
        eff_t = (eff_red or NO_REDUCTION)[t]
        x.assume(not eff_inv or i < INV[eff_t])
        pos = index_spec(S.pt, eff_inv, True, False, eff_red, t, rel, i)
        s.csm_log_prior = np.array([-1.0 - j / 7 for j in range(3000)])
        part = s.csm_log_prior[pos] * ln
        n = p.change_index + ln + 1
        args = (np.ones(n), [(0, Fraction(j)) for j in range(n)], [0] * n)
    x.returns("returns", x.call(s.add_csm_prior, False, S.pt, *args, S.labels, inv, red))
    x.check("probability", same(x, s.log_prob, lp + part))
    out = x.returns("rejoin returns", x.call(s.rejoin, s.change_index, lp, S.pt, S.labels))
    x.check("a rejoin removes it", same(x, out.log_prob, lp + lp))


def same(x, a, b):
    return a == b if x.symbolic else abs(float(a) - float(b)) < 1e-6


def _no():
    raise Unsupported("another state")


# ---- what a state reads out as -----------------------------------------------------------------------
class Cache:
    """A per-input table of any length."""

    def __init__(self, x, name, sort):
        self.x, self.name, self.sort = x, name, sort

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None or i.start is None or i.stop is None:
                raise Unsupported("slice of a cache")
            return CacheSlice(self, i.start, i.stop)
        return self.x.ufun(self.name, self.sort, i)


class CacheSlice:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def vc_sum(self):
        return self.c.x.ufun("sum " + self.c.name, REAL, self.a, self.b)

    def sum(self):
        return self.vc_sum()


@harness([BS + "get_chord", BS + "get_key"])
def chord_object(x):
    """The chord of a state: its label, in the state's key, from the end of the previous chord to its own end,
    with the total duration of the inputs between; global key as at the start of the piece."""
    S = Setting(x)
    k0, k1 = x.choice("previous key", KEYS), x.choice("current key", KEYS)
    p = S.past("past", k0)
    if x.symbolic:
        # the previous state's key is known by its contract only
        known = p.key_obj
        p.key_obj = None
        p.get_key = lambda pt, labels: known
    s = S.current(p, k1, recent=False)
    if x.symbolic:
        dur, on, lev = Cache(x, "dur", REAL), Cache(x, "onset", INT), Cache(x, "level", INT)
        total = x.ufun("sum dur", REAL, p.change_index, s.change_index)
    else:
        n = x.choice("inputs", [2, 3, 9])
        p.change_index = x.int("a", 0, n - 1)
        s.change_index = x.int("b", p.change_index + 1, n + 1)
        dur = np.array([Fraction(x.int(f"d{i}", 0, 9), 8) for i in range(n)])
        on = [(x.int(f"m{i}", 0, 9), Fraction(i, 4)) for i in range(n + 1)]
        lev = [x.choice(f"l{i}", [0, 1, 2, 3]) for i in range(n + 1)]
        total = sum(dur[p.change_index : s.change_index])
    c = x.returns("returns", x.call(s.get_chord, S.pt, dur, on, lev, S.labels))
    root, t, i = S.chord[CHORDS[0]]
    tonic, mode = S.key[k1]
    x.check("root, bass", x.and_(c.root == root, c.bass == S.bass[CHORDS[0]]))
    x.check("type, inversion, pitch type", c.chord_type == t and c.inversion == i and c.pitch_type == S.pt)
    x.check("key", x.and_(c.key_tonic == tonic, c.key_mode == mode))
    x.check("onset", x.and_(c.onset == on[p.change_index], c.onset_level == lev[p.change_index]))
    x.check("offset", x.and_(c.offset == on[s.change_index], c.offset_level == lev[s.change_index]))
    x.check("duration", c.duration == total)
    x.check("key object", S.same_key(s, k1))
    again = x.returns("returns", x.call(s.get_chord, S.pt, dur, on, lev, S.labels))
    x.check("the same when asked again", again.root is c.root and again.onset is c.onset)


@harness([BS + "get_key"])
def first_key(x):
    """On the initial state the local key is the global key."""
    pt = x.choice("pitch type", PITCH_TYPES)
    t, m = x.int("tonic", 0, NPITCH[pt]), x.choice("mode", MODES)
    s = State(key=5)
    k = x.returns("returns", x.call(s.get_key, pt, {"key": {5: (t, m)}}))
    x.check("tonic", x.and_(k.global_tonic == t, k.local_tonic == t, k.relative_tonic == t))
    x.check("mode", k.global_mode == m and k.local_mode == m and k.relative_mode == m)


class Ghost:
    """A list of any length: an arbitrary prefix (with an arbitrary last element) and a known tail."""

    def __init__(self, x, n, last):
        self.x, self.n, self.tail, self.last = x, n, [], last
        self.reset_last = False

    def vc_len(self):
        return self.n + len(self.tail)

    def append(self, v):
        self.tail.append(v)

    def __getitem__(self, i):
        if i != -1:
            raise Unsupported("element of an abstract list")
        if self.tail:
            return self.tail[-1]
        if not self.n > 0:
            raise IndexError("list index out of range")
        return self.last

    def __setitem__(self, i, v):
        self[i]
        if self.tail:
            self.tail[-1] = v
        else:
            self.n = self.n - 1
            self.tail.append(v)

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported("list." + n)


@harness([BS + "get_chords", BS + "get_keys"])
def sequences(x):
    """Reading out a state of any history: one chord and one boundary more than its predecessor; one key more
    exactly when the key differs, otherwise the last key's end moves."""
    if not x.symbolic or x.mode_unroll is not None:
        return sequences_concrete(x)
    p = State(chord=1, key=2, change_index=0)
    k = x.int("key")
    end = x.int("end")
    s = State(chord=x.int("chord"), key=k, change_index=end, prev_state=p)
    nc = x.int("chords before", 0)
    chords, bounds = Ghost(x, nc, x.int("last chord")), Ghost(x, nc + 1, x.int("last bound"))
    p.get_chords = lambda: (chords, bounds)
    c, b = x.returns("get_chords returns", x.call(s.get_chords))
    x.check("one chord more", x.and_(c.n == nc, len(c.tail) == 1 and c.tail[0] is s.chord))
    x.check("one boundary more", x.and_(b.n == nc + 1, len(b.tail) == 1 and b.tail[0] is end))
    nk = x.int("keys before", 0)
    last = x.int("last key")
    keys, kb = Ghost(x, nk, last), Ghost(x, nk + 1, x.int("last key bound"))
    p.get_keys = lambda: (keys, kb)
    ks, kbs = x.returns("get_keys returns", x.call(s.get_keys))
    new = x.or_(nk == 0, k != last)
    x.check("one key more exactly when it differs", x.iff(new, x.and_(ks.vc_len() == nk + 1)))
    x.check("otherwise none", x.implies(x.not_(new), ks.vc_len() == nk))
    x.check("one boundary per key, and the first", kbs.vc_len() == ks.vc_len() + 1)
    x.check("ends at this state", kbs[-1] == end)
    x.check("in this state's key", ks[-1] == k)
    x.check("earlier boundaries kept", x.ite(new, kbs.n == nk + 1, kbs.n == nk))
    x.check("earlier keys kept", ks.n == nk)


def sequences_concrete(x):
    s = State(key=0)
    ends, chords, keys = [0], [], []
    for i in range(x.choice("steps", [0, 1, 2] if x.symbolic else [0, 1, 3, 8])):
        k = x.int(f"key {i}", 0, 3)
        c = x.int(f"chord {i}", 0, 9)
        e = ends[-1] + x.int(f"length {i}", 1, 5)
        s = State(chord=c, key=k, change_index=e, prev_state=s)
        ends.append(e)
        chords.append(c)
        keys.append(k)
    c, b = x.returns("get_chords returns", x.call(s.get_chords))
    x.check("chords", len(c) == len(chords) and all(bool(p == q) for p, q in zip(c, chords)))
    x.check("boundaries", len(b) == len(ends) and all(bool(p == q) for p, q in zip(b, ends)))
    ks, kb = x.returns("get_keys returns", x.call(s.get_keys))
    wk, wb = [], [0]
    for k, e in zip(keys, ends[1:]):
        if wk and bool(wk[-1] == k):
            wb[-1] = e
        else:
            wk.append(k)
            wb.append(e)
    x.check("keys", len(ks) == len(wk) and all(bool(p == q) for p, q in zip(ks, wk)))
    x.check("key boundaries", len(kb) == len(wb) and all(bool(p == q) for p, q in zip(kb, wb)))


@harness([BS + "get_chords", BS + "get_keys"])
def sequences_base(x):
    """The initial state: nothing yet, one boundary."""
    e = x.int("index", 0, 10)
    s = State(key=3, change_index=e)
    x.check("chords", list(x.call(s.get_chords).value) == [[], [e]])
    x.check("keys", list(x.call(s.get_keys).value) == [[], [e]])
    x.check("no key change yet", not s.can_key_transition())
    t = State(key=3, prev_state=s)
    x.check("no key change on the first chord", not t.can_key_transition())
    x.check("a key change is possible afterwards", bool(State(key=3, prev_state=t).can_key_transition()))


@harness([BS + "get_hash", BS + "__lt__", BS + "invalidate", BS + "is_valid", BS + "__init__"])
def identity(x):
    """Order by probability; recent history of the first state; invalidation."""
    a, b = x.real("a"), x.real("b")
    L = x.choice("length", [1, 2, 3, 5])
    s, t = State(log_prob=a, key=4, chord=7, hash_length=L), State(log_prob=b)
    x.check("order", x.iff(s < t, a < b))
    x.check("history of an initial state", s.get_hash() == (None,) * (L - 1) + ((4, 7),))
    x.check("without history: its own", t.get_hash() == t.get_hash() and t.get_hash() != State(log_prob=b).get_hash())
    x.check("live", s.is_valid() and s.is_valid(check_key=True))
    s.invalidate()
    x.check("invalidated", not s.is_valid() and not s.is_valid(check_key=True) and t.is_valid())


@harness([BS + "add_csm_prior"], kind="bounded", symbolic=False, bound="random chords, keys and pitch probabilities", samples=300,
         max_seconds=20)
def pitch_prior(x):
    """With a pitch-based chord sequence model: the log-likelihood of exactly the chord's tones among the pitches relative to the
    tonic, once per input covered; the initial prior on the first chord."""
    S = Setting(x)
    k = KEYS[0]
    p = S.past("past", k)
    first = x.choice("first chord", [True, False, False])
    p.change_index = 0 if first else p.change_index + 1
    ln = x.int("inputs covered", 1, 50)
    lp = x.real("lp")
    root, t, i = S.chord[CHORDS[0]]
    tonic = S.key[k][0]
    x.assume(S.window(CHORDS[0], tonic, 0))
    s = State(chord=CHORDS[0], key=k, change_index=p.change_index + ln, log_prob=lp, prev_state=p, hash_length=S.L, key_obj=p.key_obj)
    n = 12 if S.pt == MIDI else REL_MAX - REL_MIN
    rel = (root - tonic) % 12 if S.pt == MIDI else root - tonic - REL_MIN
    if first:
        s.csm_log_prior = np.array([-1.0 - j / 7 for j in range(3000)])
        part = s.csm_log_prior[index_spec(S.pt, True, True, False, None, t, rel, i)] * ln
    else:
        q = s.csm_log_prior = np.array([(1 + x.int(f"q{j}", 0, 97)) / 99 for j in range(n)])
        tones = {bass_of(S.pt, t, root, j) - root for j in range(INV[t])}
        there = {(rel + d) % 12 if S.pt == MIDI else rel + d for d in tones}
        part = sum(np.log(q[j] if j in there else 1 - q[j]) for j in range(n)) * ln
    cache = [(j, Fraction(0)) for j in range(1100)], [0] * 1100
    x.returns("returns", x.call(s.add_csm_prior, True, S.pt, np.zeros(1100), *cache, S.labels, True, None))
    x.check("probability", abs(s.log_prob - (lp + part)) < 1e-6 * (1 + abs(part) + abs(lp)))
    r = x.returns("rejoin returns", x.call(s.rejoin, s.change_index, 0.0, S.pt, S.labels))
    x.check("removed by a rejoin", abs(r.log_prob - lp) < 1e-6 * (1 + abs(part) + abs(lp)))
