"""C19: evaluation: every accuracy is the share of the duration that is labelled right; the tables say the same."""
from common import *
from fractions import Fraction
import random
import numpy as np
import pandas as pd
from pyvc.instrument import LoopContract
from pyvc.seq import Seq
from pyvc.smt import BOOL, INT, REAL
from pyvc.sym import Unsupported
import harmonic_inference.utils.eval_utils as eu
import harmonic_inference.utils.harmonic_utils as hu
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.data_types import ALL_ONE_TYPE_REDUCTION, NO_REDUCTION
from harmonic_inference.data.key import Key
from harmonic_inference.utils.beam_search_utils import State

E = "harmonic_inference.utils.eval_utils:"
KEY = "utils.eval_utils."
REDUCTIONS = [NO_REDUCTION, TRIAD_REDUCTION, ALL_ONE_TYPE_REDUCTION, OWN_REDUCTION]


def abstract(x):
    return x.symbolic and x.mode_unroll is None


class O:
    def __init__(self, **k):
        self.__dict__.update(k)


# ---- distances ------------------------------------------------------------------------------------
@harness([E + "get_chord_distance"])
def chord_distance(x):
    """0 if root, reduced type and (if it counts) inversion agree, 1 otherwise."""
    r1, r2 = x.int("root"), x.int("other root")
    i1, i2 = x.int("inversion"), x.int("other inversion")
    t1, t2 = x.choice("type", TYPES), x.choice("other type", TYPES)
    inv = x.choice("inversions count", [True, False])
    red = x.choice("reduction", REDUCTIONS)
    d = x.returns("returns", x.call(eu.get_chord_distance, r1, t1, i1, r2, t2, i2, use_inversion=inv, reduction=red))
    same = x.and_(r1 == r2, red[t1] == red[t2], x.or_(not inv, i1 == i2))
    x.check("distance", x.iff(same, d == 0))
    x.check("otherwise one", x.implies(x.not_(same), d == 1))


@harness([E + "get_key_distance"])
def key_distance(x):
    """0 if the tonics and (if it counts) the modes agree, 1 otherwise."""
    a, b = x.int("tonic"), x.int("other tonic")
    m1, m2 = x.choice("mode", list(KeyMode)), x.choice("other mode", list(KeyMode))
    only = x.choice("tonic only", [True, False])
    d = x.returns("returns", x.call(eu.get_key_distance, a, m1, b, m2, tonic_only=only))
    same = x.and_(a == b, x.or_(only, m1 == m2))
    x.check("distance", x.iff(same, d == 0))
    x.check("otherwise one", x.implies(x.not_(same), d == 1))


# ---- pieces of any length ---------------------------------------------------------------------------
class Np:
    """numpy on sequences of any length: constructors used here."""

    def __init__(self, x):
        self.x = x

    def __getattr__(self, n):
        raise Unsupported("numpy." + n + " on a sequence of any length")

    def zeros(self, n, dtype=None):
        return Seq(n, lambda k: 0)

    def full(self, n, v, dtype=None):
        return Seq(n, lambda k: v)

    def sum(self, v):
        return v.vc_sum()


class Written(LoopContract):
    """Labels written segment by segment: the tracked input has its segment's label once that segment is written."""

    def __init__(self, name, seg, value, t):
        self.needs, self.seg, self.value, self.t = (name,), seg, value, t

    def havoc(self, x, L):
        n = self.needs[0]
        v = x.fresh_int("version")
        return {n: Seq(L[n].n, lambda k: x.ufun("written", INT, v, k))}

    def inv(self, x, L):
        a = L[self.needs[0]]
        if not isinstance(a, Seq):
            raise Unsupported("labels")
        return [("label of the tracked input", x.implies(self.seg < L["_k"], a.fn(self.t) == self.value(self.seg)))]


class Summed(LoopContract):
    """The sum so far. The step is proved for the tracked input, which is any input."""

    def __init__(self, w):
        self.needs, self.w = ("accuracy",), w

    def havoc(self, x, L):
        w, k = self.w, L["_k"]
        x.assume(x.implies(k < w.n, k == w.t))
        x.assume(w.S(k + 1) == w.S(k) + w.term(k))
        return {"accuracy": w.S(k)}

    def inv(self, x, L):
        if L["_k"] is 0:  # noqa: F632 -- entry
            x.assume(self.w.S(0) == 0)
        return [("right so far", L["accuracy"] == self.w.S(L["_k"]))]


class Tag:
    def __init__(self, what, label):
        self.what, self.label = what, label


class Any:
    """A piece of any length, with any number of chords and keys, true and estimated; t: any of its inputs."""

    def __init__(self, x, chords, keys):
        self.x = x
        self.n = x.int("inputs", 1)
        self.t = x.int("any input", 0)
        x.assume(self.t < self.n)
        self.seg, self.count = {}, {}
        self.pt, self.kt = x.choice("roots", PITCH_TYPES), x.choice("tonics", PITCH_TYPES)
        for what in ("chord",) * chords + ("key",) * keys:
            for who in ("true", "estimated"):
                m = self.count[who, what] = x.int(f"{who} {what}s", 1)
                c = self.seg[who, what] = x.int(f"segment of the input: {who} {what}", 0)
                x.assume(c < m)
                b = self.begin(who, what)
                x.assume(b(0) == 0)
                x.assume(b(c) <= self.t)
                x.assume(x.implies(c + 1 < m, self.t < b(c + 1)) if who == "true" else self.t < b(c + 1))

    def begin(self, who, what):
        """Where a segment begins; in order."""
        x = self.x

        def b(k):
            v = x.ufun(f"begin {who} {what}", INT, k)
            x.assume(v >= 0)
            c, m = self.seg[who, what], self.count[who, what]
            lim = m - 1 if who == "true" else m
            x.assume(x.implies(x.and_(k > c, k <= lim), x.ufun(f"begin {who} {what}", INT, c + 1) <= v))
            x.assume(x.implies(x.and_(k <= c, k >= 0), v <= x.ufun(f"begin {who} {what}", INT, c)))
            x.assume(v <= self.n)
            return v

        return b

    def label(self, who, what):
        return lambda k: self.x.ufun(f"label {who} {what}", INT, k)

    def at_t(self, who, what):
        return self.label(who, what)(self.seg[who, what])

    def dur(self, k):
        return self.x.ufun("duration", REAL, k)

    def S(self, k):
        return self.x.ufun("right up to", REAL, k)

    def wrong(self, what):
        return self.x.ufun("wrong " + what, BOOL, self.at_t("true", what), self.at_t("estimated", what))

    def term(self, k):
        x = self.x
        right = x.and_(*[x.not_(self.wrong(w)) for w in {w for _, w in self.seg}])
        return x.ite(right, self.dur(k), 0)

    def piece(self):
        x, w = self.x, self

        class Label:
            def __init__(self, what, k, converted=False):
                self.what, self.k, self.converted = what, k, converted

            def to_pitch_type(self, pt):
                x.check("converted to the type of the estimates", pt == (w.pt if self.what == "chord" else w.kt))
                return Label(self.what, self.k, True)

            def get_one_hot_index(self, relative=False, use_inversion=True, pad=None):
                if self.what == "chord" and (relative, use_inversion, pad) != (False, True, False):
                    raise Unsupported("another index")
                x.check("label in the type of the estimates", self.converted)
                return w.label("true", self.what)(self.k)

        def seq(what):
            m = self.count["true", what]
            return lambda: Seq(m, lambda k: Label(what, k))

        def changes(what):
            return lambda: Seq(self.count["true", what], self.begin("true", what))

        durations = Seq(self.n, self.dur, lambda k: x.ufun("total up to", REAL, k))
        p = O(get_inputs=lambda: Seq(self.n, lambda k: None), get_duration_cache=lambda: durations)
        if ("true", "chord") in self.seg:
            p.get_chords, p.get_chord_change_indices = seq("chord"), changes("chord")
        if ("true", "key") in self.seg:
            p.get_keys, p.get_key_change_input_indices = seq("key"), changes("key")
        return p

    def state(self):
        def get(what):
            m = self.count["estimated", what]
            return lambda: (Seq(m, self.label("estimated", what)), Seq(m + 1, self.begin("estimated", what)))

        s = O()
        for who, what in self.seg:
            if who == "estimated":
                setattr(s, f"get_{what}s", get(what))
        return s

    def contracts(self, inv, red, only):
        x = self.x

        def chord_of(i, pt, use_inversions=True, relative=False, pad=False, reduction=None):
            if not use_inversions or relative or pad or reduction is not None:
                raise Unsupported("another label list")
            x.check("chords read in their type", pt == self.pt)
            return tuple(Tag(n, i) for n in ("root", "type", "inversion"))

        def key_of(i, pt):
            x.check("keys read in their type", pt == self.kt)
            return tuple(Tag(n, i) for n in ("tonic", "mode"))

        def apart(what, a, b):
            names = ("root", "type", "inversion") if what == "chord" else ("tonic", "mode")
            for v in (a, b):
                if [e.what for e in v] != list(names) or any(e.label is not v[0].label for e in v):
                    x.check("compared part by part", False)
            g, e = self.at_t("true", what), self.at_t("estimated", what)
            x.check("the labels of this input are compared", x.or_(
                x.and_(a[0].label == g, b[0].label == e), x.and_(a[0].label == e, b[0].label == g)))
            return 1.0 if self.wrong(what) else 0.0

        def chord_distance_(r1, t1, i1, r2, t2, i2, use_inversion=True, reduction=NO_REDUCTION):
            x.check("by the options given", use_inversion == inv and reduction is red)
            return apart("chord", (r1, t1, i1), (r2, t2, i2))

        def key_distance_(a, m1, b, m2, tonic_only=False):
            x.check("by the options given", tonic_only == only)
            return apart("key", (a, m1), (b, m2))

        x.stub(eu, "get_chord_distance", chord_distance_)
        x.stub(eu, "get_key_distance", key_distance_)
        x.replace(eu.hu, "get_chord_from_one_hot_index", chord_of, "chord of an index (C02)")
        x.replace(eu.hu, "get_key_from_one_hot_index", key_of, "key of an index (C02)")
        x.replace(eu, "np", Np(x), "numpy zeros, slice assignment and sum (documented meaning)")
        x.replace(eu, "int", lambda v: v, "int of an integer")


def accuracy(x, fn, names, call, chords, keys):
    inv, red, only = x.choice("inversions", [True, False]), x.choice("reduction", REDUCTIONS), x.choice("tonic only", [True, False])
    if not abstract(x):
        return accuracy_reference(x, fn, call, chords, keys, inv, red, only)
    w = Any(x, chords, keys)
    w.contracts(inv, red, only)
    i = 0
    for what in ("chord",) * chords + ("key",) * keys:
        for who in ("true", "estimated"):
            x.loop(f"{KEY}{fn}#{i}", Written(names[i], w.seg[who, what], w.label(who, what), w.t))
            i += 1
    x.loop(f"{KEY}{fn}#{i}", Summed(w))
    x.assume(x.ufun("total up to", REAL, w.n) > 0)
    a = x.returns("returns", call(x, w.piece(), w.state(), w.pt, w.kt, inv, red, only))
    x.check("right duration of the whole", a == w.S(w.n) / x.ufun("total up to", REAL, w.n))


def random_piece(x, pt, kt, n=None, tag=""):
    rng = random.Random(x.int("seed" + tag, 0, 10 ** 6))
    n = n or rng.choice([1, 2, 3, 5, 9])
    durations = [Fraction(rng.choice([0, 1, 1, 2, 3]), 8) for _ in range(n)]
    if not sum(durations):
        durations[-1] = Fraction(1, 4)

    def cut():
        return [0] + [i for i in range(1, n) if rng.random() < 0.4]

    few = rng.choice([2, 5, 40])
    at = lambda i: (0, Fraction(i, 8))  # noqa: E731
    gt_pt = rng.choice([TPC, pt])

    def chord():
        ty = rng.choice(TYPES[:few])
        root = rng.randrange(12, 12 + few) % 12 if gt_pt == MIDI else rng.randrange(14, 14 + min(few, 6))
        inv = rng.randrange(min(few, hu.get_chord_inversion_count(ty)))
        tonic, mode = 2 if gt_pt == MIDI else 16, rng.choice(list(KeyMode))
        return Chord(root, hu.get_bass_note(ty, root, inv, gt_pt), tonic, mode, ty, inv, at(0), 0, at(n), 0, Fraction(1), gt_pt)

    def key():
        tonic = rng.randrange(min(few, 12)) if gt_pt == MIDI else rng.randrange(14, 14 + min(few, 6))
        m = rng.choice(list(KeyMode))
        return Key(tonic, tonic, tonic, m, m, m, gt_pt)

    cc = cut()
    kc = [i for i in range(len(cc)) if i == 0 or rng.random() < 0.4]
    chords, keys = [chord() for _ in cc], [key() for _ in kc]
    piece = O(
        get_inputs=lambda: [None] * n, get_duration_cache=lambda: np.array(durations), get_chords=lambda: chords,
        get_chord_change_indices=lambda: cc, get_keys=lambda: keys, get_key_change_input_indices=lambda: [cc[i] for i in kc],
    )
    s = State(key=0)
    labels = []
    ends = cut()[1:] + [n]
    true_at = lambda i: chords[[j for j, c in enumerate(cc) if c <= i][-1]]  # noqa: E731
    true_key = lambda i: keys[[j for j, c in enumerate(kc) if cc[c] <= i][-1]]  # noqa: E731
    a = 0
    for b in ends:
        c = true_at(a).to_pitch_type(pt)
        k = true_key(a).to_pitch_type(kt)
        r, ty, inv = (v if rng.random() < 0.8 else None for v in (c.root, c.chord_type, c.inversion))
        ty = ty or rng.choice(TYPES[:few])
        r = rng.randrange(14, 18) % NPITCH[pt] if r is None else r
        inv = rng.randrange(hu.get_chord_inversion_count(ty)) if inv is None else min(inv, hu.get_chord_inversion_count(ty) - 1)
        tonic = k.relative_tonic if rng.random() < 0.8 else rng.randrange(14, 18) % NPITCH[kt]
        mode = k.relative_mode if rng.random() < 0.8 else rng.choice(list(KeyMode))
        s = State(
            chord=hu.get_chord_one_hot_index(ty, r, pt, inversion=inv), key=hu.get_key_one_hot_index(mode, tonic, kt),
            change_index=b, prev_state=s,
        )
        labels += [(r, ty, inv, tonic, mode)] * (b - a)
        a = b
    return O(n=n, durations=durations, piece=piece, state=s, labels=labels, chord=true_at, key=true_key)


def accuracy_reference(x, fn, call, chords, keys, inv, red, only):
    pt, kt = x.choice("roots", PITCH_TYPES), x.choice("tonics", PITCH_TYPES)
    if x.symbolic:
        x.assume(False)
    w = random_piece(x, pt, kt)
    good = Fraction(0)
    for i in range(w.n):
        c, k = w.chord(i).to_pitch_type(pt), w.key(i).to_pitch_type(kt)
        r, ty, v, tonic, mode = w.labels[i]
        ok = True
        if chords:
            ok = ok and c.root == r and red[c.chord_type] == red[ty] and (not inv or c.inversion == v)
        if keys:
            ok = ok and k.relative_tonic == tonic and (only or k.relative_mode == mode)
        good += w.durations[i] if ok else 0
    a = x.returns("returns", call(x, w.piece, w.state, pt, kt, inv, red, only))
    x.check("right duration of the whole", abs(a - float(good / sum(w.durations))) < 1e-9)


@harness([E + "evaluate_chords"])
def chord_accuracy(x):
    """Chord accuracy: the share of the duration at whose inputs the estimated chord is the true one (by the options). Any
    number of inputs and chords."""
    accuracy(
        x, "evaluate_chords", ("gt_labels", "estimated_labels"),
        lambda x, p, s, pt, kt, inv, red, only: x.call(eu.evaluate_chords, p, s, pt, use_inversion=inv, reduction=red), 1, 0,
    )


@harness([E + "evaluate_keys"])
def key_accuracy(x):
    """Key accuracy, likewise."""
    accuracy(
        x, "evaluate_keys", ("gt_labels", "estimated_labels"),
        lambda x, p, s, pt, kt, inv, red, only: x.call(eu.evaluate_keys, p, s, kt, tonic_only=only), 0, 1,
    )


@harness([E + "evaluate_chords_and_keys_jointly"])
def joint_accuracy(x):
    """Joint accuracy: both right."""
    accuracy(
        x, "evaluate_chords_and_keys_jointly",
        ("gt_chord_labels", "estimated_chord_labels", "gt_key_labels", "estimated_key_labels"),
        lambda x, p, s, pt, kt, inv, red, only: x.call(
            eu.evaluate_chords_and_keys_jointly, p, s, pt, kt, use_inversion=inv, chord_reduction=red, tonic_only=only), 1, 1,
    )


# ---- tables -----------------------------------------------------------------------------------------
TABLE = dict(kind="bounded", symbolic=False, bound="random pieces of at most 9 inputs", samples=150, max_seconds=40)
NAMES = {}


def names(what, pt):
    if (what, pt) not in NAMES:
        f = hu.get_chord_label_list if what == "chord" else hu.get_key_label_list
        NAMES[what, pt] = f(pt)
    return NAMES[what, pt]


@harness([E + "get_results_df"], samples=200, max_seconds=40)
def results_table(x):
    """One row per input that lasts: its duration and its true and estimated chord and key, in the types asked for.
    Any number of inputs, chords and keys."""
    if abstract(x):
        import tables

        tables.results_table(x)
        return
    if x.symbolic:
        x.assume(False)
    pt, kt = x.choice("roots", PITCH_TYPES), x.choice("tonics", PITCH_TYPES)
    out_r, out_t = x.choice("table roots", PITCH_TYPES), x.choice("table tonics", PITCH_TYPES)
    w = random_piece(x, pt, kt)
    df = x.returns("returns", x.call(eu.get_results_df, w.piece, w.state, pt, kt, out_r, out_t))
    convert = lambda p, a, b: p if a == b else hu.get_pitch_from_string(hu.get_pitch_string(p, a), b)  # noqa: E731
    rows = []
    for i in range(w.n):
        if not w.durations[i]:
            continue
        c, k = w.chord(i), w.key(i)
        r, ty, inv, tonic, mode = w.labels[i]
        rows.append({
            "gt_key": names("key", out_t)[hu.get_key_one_hot_index(k.relative_mode, convert(k.relative_tonic, k.tonic_type, out_t), out_t)],
            "gt_chord": names("chord", out_r)[hu.get_chord_one_hot_index(c.chord_type, convert(c.root, c.pitch_type, out_r), out_r, inversion=c.inversion)],
            "est_key": names("key", out_t)[hu.get_key_one_hot_index(mode, convert(tonic, kt, out_t), out_t)],
            "est_chord": names("chord", out_r)[hu.get_chord_one_hot_index(ty, convert(r, pt, out_r), out_r, inversion=inv)],
            "duration": w.durations[i],
        })
    x.check("the rows", df.to_dict("records") == rows)


@harness([E + "average_results"], kind="bounded", symbolic=False, samples=150, bound="result files of at most 12 lines")
def averages(x):
    """The average of each accuracy in a file of results; other lines do not count."""
    import os
    import tempfile

    rng = random.Random(x.int("seed", 0, 10 ** 6))
    sep = rng.choice([" = ", " = ", ":"])
    want, lines = {}, []
    for _ in range(rng.choice([0, 1, 4, 12])):
        kind = rng.randrange(6)
        name, v = rng.choice(["Chord accuracy", "Key accuracy", "Full accuracy", "accuracy of all"]), rng.randrange(0, 65) / 64
        if kind < 4:
            want.setdefault(name, []).append(v)
            lines.append(rng.choice(["", "  "]) + name + rng.choice(["", " "]) + sep + str(v))
        else:
            lines.append(rng.choice(["", "INFO running", f"time{sep}3.5", f"Chord accuracy{sep}1{sep}2", "Chord accuracy 0.5"]))
    fd, path = tempfile.mkstemp()
    try:
        with os.fdopen(fd, "w") as f:
            f.write("\n".join(lines) + rng.choice(["", "\n"]))
        r = x.returns("returns", x.call(eu.average_results, path, **({} if sep == " = " else {"split_on": sep})))
    finally:
        os.remove(path)
    x.check("each accuracy", set(r) == set(want))
    for k, vs in want.items():
        x.check("its average", abs(r[k] - sum(vs) / len(vs)) < 1e-9)
