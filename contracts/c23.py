"""C23: the prior over a key's first chord: learnt as relative frequencies, kept a distribution however it is reduced."""
from common import *
import json
import os
import random
import shutil
import tempfile
import numpy as np
from pyvc.instrument import LoopContract
from pyvc.seq import Seq
from pyvc.smt import BOOL, INT, REAL
from pyvc.sym import Unsupported
import harmonic_inference.models.initial_chord_models as icm
import harmonic_inference.utils.data_utils as du
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.key import Key

I = "harmonic_inference.models.initial_chord_models:"
KEY = "models.initial_chord_models."


def abstract(x):
    return x.symbolic and x.mode_unroll is None


class O:
    def __init__(self, **k):
        self.__dict__.update(k)


# ---- learning -----------------------------------------------------------------------------------------
class Tally(Seq):
    """An array known through what is at a position and through its total."""

    def __init__(self, n, fn, total):
        super().__init__(n, fn)
        self.total = total

    def vc_list(self):
        return Tally(self.n, self.fn, self.total)

    copy = tolist = vc_list

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise Unsupported("slice assignment")
        old = self[i]
        super().__setitem__(i, v)
        self.total = self.total + (v - old)

    def vc_sum(self):
        return self.total

    sum = vc_sum

    def __mul__(self, c):
        f, t = self.fn, self.total
        return Tally(self.n, lambda k: f(k) * c, t * c)

    __rmul__ = __mul__

    def __truediv__(self, c):
        f, t = self.fn, self.total
        return Tally(self.n, lambda k: f(k) / c, t / c)

    def __add__(self, c):
        f, t, n = self.fn, self.total, self.n
        return Tally(n, lambda k: f(k) + c, t + n * c)

    __radd__ = __add__


class Np:
    def __getattr__(self, n):
        raise Unsupported("numpy." + n + " on an array of any length")

    def ones(self, n, dtype=None):
        return Tally(n, lambda k: 1, n)

    def zeros(self, n, dtype=None):
        return Tally(n, lambda k: 0, 0)

    def full(self, n, v, dtype=None):
        return Tally(n, lambda k: v, n * v)

    def sum(self, v):
        return v.vc_sum()


class Counting(LoopContract):
    names = {KeyMode.MAJOR: "major_key_chords_one_hots", KeyMode.MINOR: "minor_key_chords_one_hots"}
    needs = tuple(names.values())

    def __init__(self, w):
        self.w = w

    def havoc(self, x, L):
        k, w = L["_k"], self.w
        w.step(k)
        return {
            n: Tally(w.size, lambda j, m=m: x.ufun(f"so far {m.name}", REAL, k, j), x.ufun(f"total so far {m.name}", REAL, k))
            for m, n in self.names.items()
        }

    def inv(self, x, L):
        w, k, out = self.w, L["_k"], []
        for m, n in self.names.items():
            a = L[n]
            if not isinstance(a, Tally):
                raise Unsupported("counts")
            out.append((f"counts of {m.name}", a.fn(w.t) == w.smoothing / w.size + w.count(m, k)))
            out.append((f"total of {m.name}", a.total == w.smoothing + w.number(m, k)))
        return out


class World:
    """Any number of first chords, some of them in major, each with its label."""

    def __init__(self, x):
        self.x, self.n = x, x.int("chords", 1)
        self.size, self.smoothing = x.int("labels", 1), x.real("smoothing")
        x.assume(self.smoothing > 0)
        self.t = x.int("any label", 0)
        x.assume(self.t < self.size)
        for m in KeyMode:
            x.assume(x.and_(self.count(m, 0) == 0, self.number(m, 0) == 0))

    def label(self, k):
        v = self.x.ufun("label", INT, k)
        self.x.assume(self.x.and_(v >= 0, v < self.size))
        return v

    def is_major(self, k):
        return self.x.ufun("in major", BOOL, k)

    def count(self, m, k):
        return self.x.ufun(f"count {m.name}", INT, k)

    def number(self, m, k):
        return self.x.ufun(f"number {m.name}", INT, k)

    def step(self, k):
        """What counting means: one more exactly when the next chord is of that mode (and has the tracked label)."""
        x = self.x
        for m in KeyMode:
            of = self.is_major(k) if m == KeyMode.MAJOR else x.not_(self.is_major(k))
            x.assume(self.number(m, k + 1) == self.number(m, k) + x.ite(of, 1, 0))
            x.assume(self.count(m, k + 1) == self.count(m, k) + x.ite(x.and_(of, self.label(k) == self.t), 1, 0))
            x.assume(self.number(m, k) >= 0)


@harness([I + "train_icm"], samples=60)
def learnt(x):
    """For each mode: the share of each label among the first chords in that mode, every label raised by an equal part
    of the smoothing; any number of chords. The file says that inversions are there and nothing is reduced."""
    if not abstract(x):
        return learnt_concrete(x)
    w = World(x)
    pitch_type = x.choice("pitch type", PITCH_TYPES)
    asked = dict(relative=True, use_inversion=True, pad=False, reduction=None)

    class Ch:
        def __init__(self, k):
            self.k, self.pitch_type = k, pitch_type
            self.key_mode = Mode(k)

        def get_one_hot_index(self, relative=False, use_inversion=True, pad=False, reduction=None):
            got = dict(relative=relative, use_inversion=use_inversion, pad=pad, reduction=reduction)
            x.check("relative label with inversion", got == asked)
            return w.label(self.k)

    class Mode:
        def __init__(self, k):
            self.k = k

        def __eq__(self, o):
            return w.is_major(self.k) if o == KeyMode.MAJOR else x.not_(w.is_major(self.k))

        def __ne__(self, o):
            return x.not_(self == o)

        __hash__ = None

    def length(pt, one_hot=True, relative=True, use_inversions=True, pad=False, reduction=None):
        x.check("as many labels as there are", pt == pitch_type and one_hot and relative and use_inversions and not pad and reduction is None)
        return w.size

    out = {}

    class File:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    def opened(path, mode="r", *a, **k):
        x.check("the given file is written", path == "somewhere" and mode == "w")
        return File()

    x.stub(icm, "get_chord_vector_length", length)
    x.replace(icm, "np", Np(), "numpy ones/sum (documented meaning)")
    x.replace(icm, "open", opened, "opening the file")
    x.replace(icm, "json", O(dump=lambda v, f, **k: out.update(v)), "json.dump writes what it is given")
    x.loop(KEY + "train_icm#0", Counting(w))
    x.returns("returns", x.call(icm.train_icm, Seq(w.n, Ch), "somewhere", add_n_smoothing=w.smoothing))
    for m, k in ((KeyMode.MAJOR, "major"), (KeyMode.MINOR, "minor")):
        x.check("every label has its prior", out[k].vc_len() == w.size)
        want = w.smoothing / w.size + w.count(m, w.n)
        x.check("smoothed share of the label", out[k].vc_at(w.t) * (w.smoothing + w.number(m, w.n)) == want)
        x.check("a distribution", out[k].total == 1)
    x.check("what the file says", out["inversions_present"] is True and out["reduction_present"] is None)
    x.check("pitch type", out["pitch_type"] == str(pitch_type))


def labels(pt, inv, red):
    """All (relative root, type, inversion) in order; where each is."""
    roots = range(-14, 15) if pt == TPC else range(12)
    every = []
    for ty in sorted(set(red.values())):
        for r in roots:
            for i in range(4 if ty.value >= 4 and inv else 3) if inv else [0]:
                every.append((r, ty, i))
    return every


def first_chord(rng, pt, few):
    ty = rng.choice(TYPES[:few])
    tonic, mode = (rng.randrange(12), rng.choice(list(KeyMode))) if pt == MIDI else (rng.randrange(14, 20), rng.choice(list(KeyMode)))
    root = rng.randrange(12) if pt == MIDI else tonic + rng.randrange(-3, 3)
    inv = rng.randrange(hu.get_chord_inversion_count(ty))
    at = (0, 0)
    c = Chord(root, hu.get_bass_note(ty, root, inv, pt), tonic, mode, ty, inv, at, 0, at, 0, 1, pt)
    rel = (root - tonic) % 12 if pt == MIDI else root - tonic
    return c, (rel, ty, inv)


def learnt_concrete(x):
    rng = random.Random(x.int("seed", 0, 10 ** 6))
    pt, few = x.choice("pitch type", PITCH_TYPES), x.choice("few", [2, 12])
    drawn = [first_chord(rng, pt, few) for _ in range(x.choice("chords", [1, 3, 20]))]
    smoothing = x.choice("smoothing", [None, 0.5, 3.0])
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, "prior.json")
        kw = {} if smoothing is None else {"add_n_smoothing": smoothing}
        x.returns("returns", x.call(icm.train_icm, [c for c, _ in drawn], path, **kw))
        with open(path) as f:
            out = json.load(f)
    finally:
        shutil.rmtree(d)
    s = 1.0 if smoothing is None else smoothing
    every = labels(pt, True, NO_REDUCTION)
    for m, k in ((KeyMode.MAJOR, "major"), (KeyMode.MINOR, "minor")):
        of = [l for c, l in drawn if c.key_mode == m]
        want = [(s / len(every) + of.count(l)) / (s + len(of)) for l in every]
        x.check("smoothed shares", len(out[k]) == len(want) and np.allclose(out[k], want, rtol=1e-9, atol=1e-12))
    x.check("what the file says", out["inversions_present"] is True and out["reduction_present"] is None)
    x.check("pitch type", out["pitch_type"] == str(pt))


# ---- using it ------------------------------------------------------------------------------------------
def config(x, rng):
    pt = x.choice("pitch type", PITCH_TYPES)
    present_inv = x.choice("inversions present", [True, True, False])
    present = x.choice("reduction present", [None, None, TRIAD_REDUCTION, OWN_REDUCTION])
    size = len(labels(pt, present_inv, present or NO_REDUCTION))
    prior = lambda: [rng.random() + 0.01 for _ in range(size)]  # noqa: E731
    data = {"pitch_type": pt, "inversions_present": present_inv, "reduction_present": present, "major": prior(), "minor": prior()}
    for k in ("major", "minor"):
        data[k] = [v / sum(data[k]) for v in data[k]]
    return data


@harness(
    [I + "SimpleInitialChordModel.__init__", I + "SimpleInitialChordModel.get_prior", "harmonic_inference.utils.data_utils:load_kwargs_from_json"],
    kind="bounded", symbolic=False, bound="random priors; every pitch type, reduction and use of inversions", samples=60, max_seconds=40,
)
def collapsed(x):
    """The prior of a label is the sum of the stored priors of the labels that it stands for (types reduced, inversions
    left out where asked); asked for as such or as its logarithm; by the key's mode."""
    rng = random.Random(x.int("seed", 0, 10 ** 6))
    data = config(x, rng)
    pt = data["pitch_type"]
    red = x.choice("reduction", [None, None, NO_REDUCTION, TRIAD_REDUCTION, ALL_ONE_TYPE_REDUCTION, OWN_REDUCTION])
    inv = x.choice("inversions", [True, False])
    if red in (TRIAD_REDUCTION, ALL_ONE_TYPE_REDUCTION) and data["reduction_present"] != TRIAD_REDUCTION:
        # a third inversion has no place among triads
        inv = False
    where = x.choice("asked", ["argument", "file"])
    kw = {}
    if where == "file":
        if red is not None or rng.random() < 0.5:
            data["reduction"] = red
        data["use_inversions"] = inv
    else:
        kw = {k: v for k, v in dict(use_inversions=inv, reduction=red).items() if not (v is None or v is True and rng.random() < 0.5)}
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, "c.json")
        name = lambda v: {str(a): str(b) for a, b in v.items()} if isinstance(v, dict) else str(v) if isinstance(v, PitchType) else v  # noqa: E731
        with open(path, "w") as f:
            json.dump({k: name(v) for k, v in data.items()}, f)
        loaded = x.returns("loads", x.call(du.load_kwargs_from_json, path))
    finally:
        shutil.rmtree(d)
    x.check("read back as written", loaded == data)
    m = x.returns("returns", x.call(icm.SimpleInitialChordModel, loaded, **kw))
    present = data["reduction_present"] or NO_REDUCTION
    use_inv = inv and data["inversions_present"]
    over = {t: (red or NO_REDUCTION)[present[t]] for t in TYPES}
    old, new = labels(pt, data["inversions_present"], present), labels(pt, use_inv, over)
    at = {l: i for i, l in enumerate(new)}
    x.check("says what it does", m.use_inversions == use_inv and m.reduction == over and m.PITCH_TYPE == pt)
    for minor, k in ((False, "major"), (True, "minor")):
        want = np.zeros(len(new))
        for p, (r, ty, i) in zip(data[k], old):
            want[at[r, over[ty], i if use_inv else 0]] += p
        got = np.array(m.get_prior(minor, log=False))
        x.check("sum over what the label stands for", got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-13))
        x.check("a distribution", abs(got.sum() - 1) < 1e-9)
        x.check("logarithms", np.allclose(m.get_prior(minor), np.log(want)) and np.allclose(m.get_prior(minor, log=True), np.log(want)))


@harness(
    [I + "SimpleInitialChordModel.evaluate"], kind="bounded", symbolic=False, bound="random priors, at most 9 pieces", samples=80, max_seconds=40,
)
def evaluated(x):
    """The percentage of pieces whose first chord is the likeliest one of their mode, and the mean negative log prior."""
    rng = random.Random(x.int("seed", 0, 10 ** 6))
    data = config(x, rng)
    data["inversions_present"] = data["inversions_present"] and data["reduction_present"] is None
    pt = data["pitch_type"]
    present = data["reduction_present"] or NO_REDUCTION
    every = labels(pt, data["inversions_present"], present)
    for k in ("major", "minor"):
        data[k] = [rng.random() + 0.01 for _ in every]
        data[k] = [v / sum(data[k]) for v in data[k]]
    m = icm.SimpleInitialChordModel(dict(data))
    pieces, right, loss = [], 0, 0.0
    for _ in range(x.choice("pieces", [1, 4, 9])):
        c, (r, ty, i) = first_chord(rng, pt, 12)
        mode = rng.choice(list(KeyMode))
        p = data["major" if mode == KeyMode.MAJOR else "minor"]
        if rng.random() < 0.5:
            # the likeliest one
            r, ty, i = every[int(np.argmax(p))]
            root = (r + c.key_tonic) % 12 if pt == MIDI else r + 17
            tonic = c.key_tonic if pt == MIDI else 17
            if pt == MIDI or 0 <= root < 35:
                c = Chord(root, root, tonic, c.key_mode, ty, i, (0, 0), 0, (0, 0), 0, 1, pt)
            else:
                c, (r, ty, i) = first_chord(rng, pt, 12)
        at = every.index((r, present[ty], i if data["inversions_present"] else 0))
        right += at == int(np.argmax(p))
        loss -= np.log(p[at])
        k = Key(15, 15, 15, mode, rng.choice(list(KeyMode)), rng.choice(list(KeyMode)), TPC)
        other = first_chord(rng, pt, 12)[0]
        pieces.append(O(get_chords=lambda c=c, o=other: [c, o], get_keys=lambda k=k: [k, k]))
    res = x.returns("returns", x.call(m.evaluate, pieces))
    x.check("accuracy", abs(res["acc"] - 100 * right / len(pieces)) < 1e-9)
    x.check("loss", abs(res["loss"] - loss / len(pieces)) < 1e-9)
    x.check("nothing else", set(res) == {"acc", "loss"})


@harness(
    ["harmonic_inference.utils.data_utils:load_kwargs_from_json"], kind="bounded", symbolic=False, bound="random files of at most 6 fields",
    samples=150, max_seconds=20,
)
def configuration(x):
    """Every field as written; names of pitch types, piece types and (in reductions) chord types as what they name."""
    rng = random.Random(x.int("seed", 0, 10 ** 6))
    want, text = {}, {}
    for k in rng.sample(["input_pitch", "output_reduction", "reduction", "reduction_input", "dropout", "name", "dims", "options"], rng.randrange(7)):
        if "reduction" in k and rng.random() < 0.8:
            want[k] = {t: rng.choice(TYPES) for t in rng.sample(TYPES, rng.randrange(5))}
            text[k] = {str(a): str(b) for a, b in want[k].items()}
        elif "pitch" in k or rng.random() < 0.2:
            want[k] = rng.choice(list(PitchType) + list(PieceType))
            text[k] = str(want[k])
        else:
            want[k] = text[k] = rng.choice([1, 0.5, None, True, "text", [1, 2], {"a": 1}, "Pitch"]) if "reduction" not in k else None
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, "c.json")
        with open(path, "w") as f:
            json.dump(text, f)
        got = x.returns("returns", x.call(du.load_kwargs_from_json, path))
    finally:
        shutil.rmtree(d)
    x.check("the fields", got == want and all(type(got[k]) is type(want[k]) for k in want))
    x.check("no file", x.returns("returns", x.call(du.load_kwargs_from_json, None)) == {})
