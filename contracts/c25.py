"""C25: forces written into a score: read as they are written, where they are written."""
from common import *
import contextlib
import io
import random
import warnings
from fractions import Fraction
import pandas as pd
from pyvc.instrument import LoopContract
from pyvc.seq import Seq
from pyvc.smt import BOOL, INT, REAL
from pyvc.sym import Unsupported
from c02 import INV, index_spec
import harmonic_inference.utils.forces as fo

F = "harmonic_inference.utils.forces:"
SYMBOL = {
    "M": ChordType.MAJOR, "m": ChordType.MINOR, "o": ChordType.DIMINISHED, "+": ChordType.AUGMENTED, "MM7": ChordType.MAJ_MAJ7,
    "Mm7": ChordType.MAJ_MIN7, "mM7": ChordType.MIN_MAJ7, "mm7": ChordType.MIN_MIN7, "o7": ChordType.DIM7, "%7": ChordType.HALF_DIM7,
    "+7": ChordType.AUG_MIN7, "+M7": ChordType.AUG_MAJ7,
}


class O:
    def __init__(self, **k):
        self.__dict__.update(k)


def abstract(x):
    return x.symbolic and x.mode_unroll is None


def before(x, a, b):
    """Positions in score order: measure, then place in it."""
    return x.or_(a[0] < b[0], x.and_(a[0] == b[0], a[1] < b[1]))


class SeqBisect:
    """Assumed contract of bisect on positions in score order; w.q: any note."""

    def __init__(self, x, w):
        self.x, self.w = x, w

    def find(self, a, v, test):
        x, w = self.x, self.w
        if not isinstance(a, Seq):
            raise Unsupported("bisect in something else")
        i = x.fresh_int("place")
        x.assume(x.and_(i >= 0, i <= a.n))
        for k in (i - 1, i, w.q):
            x.assume(x.implies(x.and_(k >= 0, k < i), test(a.vc_at(k), v)))
            x.assume(x.implies(x.and_(k >= i, k < a.n), x.not_(test(a.vc_at(k), v))))
        # (the notes are in score order)
        x.assume(x.implies(x.and_(i < a.n, w.q >= i), x.not_(before(x, a.vc_at(w.q), a.vc_at(i)))))
        return i

    def bisect_left(self, a, v):
        return self.find(a, v, lambda e, u: before(self.x, e, u))

    def bisect_right(self, a, v):
        return self.find(a, v, lambda e, u: self.x.not_(before(self.x, u, e)))

    bisect = bisect_right

    def __getattr__(self, n):
        raise Unsupported("bisect." + n)


class OneForce(LoopContract):
    """The tracked force (any of them) is in place once it has been dealt with."""

    needs = ("new_forces",)

    def __init__(self, w):
        self.w = w

    def havoc(self, x, L):
        w = self.w
        w.looking_at = L["_k"]
        v = x.fresh_int("version")
        part = lambda n, i: x.ufun(n, INT, v, i)  # noqa: E731
        if w.labelled:
            return {"new_forces": Seq(w.m, lambda i: (part("index", i), part("label", i)))}
        return {"new_forces": Seq(w.m, lambda i: part("index", i))}

    def inv(self, x, L):
        w, k, a = self.w, L["_k"], L["new_forces"]
        if not isinstance(a, Seq):
            raise Unsupported("forces")
        if k is 0:  # noqa: F632 -- entry
            return [("as many as there are forces", a.n == w.m)]
        if not bool(k > w.t):
            return [("as many as there are forces", a.n == w.m)]
        return [("as many as there are forces", a.n == w.m), *w.right(a.vc_at(w.t))]


class Placed:
    """Notes in score order and forces, any number of each; t: any force, q: any note."""

    def __init__(self, x):
        self.x = x
        self.n, self.m = x.int("notes", 0), x.int("forces", 1)
        self.t, self.q = x.int("any force", 0), x.int("any note", 0)
        x.assume(x.and_(self.t < self.m, self.q < self.n))
        self.labelled = x.choice("labelled", [False, True])

    def note(self, k):
        return self.x.ufun("measure", INT, k), self.x.ufun("place", REAL, k)

    def force(self, k):
        x = self.x
        at = x.ufun("forced measure", INT, k), x.ufun("forced place", REAL, k)
        return (*at, x.ufun("forced label", INT, k)) if self.labelled else at

    def same(self, k, force=None):
        a, b = self.note(k), self.force(self.t if force is None else force)
        return self.x.and_(a[0] == b[0], a[1] == b[1])

    def right(self, got):
        x = self.x
        i = got
        if self.labelled:
            if not isinstance(got, tuple) or len(got) != 2:
                return [("position and label", False)]
            i = got[0]
            yes = [("its label", got[1] == self.force(self.t)[2])]
        else:
            yes = []
        return yes + [
            ("a note that begins there", x.and_(i >= 0, i < self.n, self.same(i))),
            ("the first one", x.implies(self.same(self.q), i <= self.q)),
        ]


@harness([F + "convert_score_positions_to_note_indexes"], samples=400)
def positions(x):
    """A force at a position becomes one at the first note that begins there, with its label, in order; refused when no note
    begins there. Any number of forces."""
    if abstract(x):
        w = Placed(x)
        x.abstract_lists = True
        x.replace(fo, "bisect", SeqBisect(x, w), "bisect on a sorted sequence (standard library)")
        x.loop("utils.forces.convert_score_positions_to_note_indexes#0", OneForce(w))
        piece = O(get_inputs=lambda: Seq(w.n, lambda k: O(onset=w.note(k))))
        r = x.call(fo.convert_score_positions_to_note_indexes, Seq(w.m, w.force), piece)
        if r.raised(ValueError, IndexError):
            x.check("refused only when no note begins there", x.not_(w.same(w.q, w.looking_at)))
            return
        r = x.returns("returns", r)
        if not isinstance(r, Seq):
            raise Unsupported("result")
        x.check("as many as there are forces", r.n == w.m)
        for label, c in w.right(r.vc_at(w.t)):
            x.check(label, c)
        return
    if x.symbolic:
        x.assume(False)
    rng = random.Random(x.int("seed", 0, 10 ** 6))
    all_at = [(mc, Fraction(b, 4)) for mc in range(1, 5) for b in range(4)]
    at = sorted(rng.choice(all_at) for _ in range(rng.choice([1, 2, 5, 9])))
    labelled = rng.random() < 0.5
    asked = [rng.choice(at) for _ in range(rng.choice([0, 1, 3]))]
    wrong = rng.random() < 0.2
    if wrong:
        asked.insert(rng.randrange(len(asked) + 1), rng.choice(all_at + [(9, Fraction(0))]))
    ids = [rng.randrange(100) for _ in asked]
    forces = [(*p, i) if labelled else p for p, i in zip(asked, ids)]
    given = list(forces)
    piece = O(get_inputs=lambda: [O(onset=p) for p in at])
    r = x.call(fo.convert_score_positions_to_note_indexes, forces, piece)
    if any(p not in at for p in asked):
        x.check("refused", not r.ok and isinstance(r.exc, (ValueError, IndexError)))
        return
    r = x.returns("returns", r)
    x.check("the first note there", list(r) == [(at.index(p), i) if labelled else at.index(p) for p, i in zip(asked, ids)])
    x.check("the given forces are left alone", forces == given)


def some_forces(rng, n):
    """(text, what it forces): at most one force per text."""
    out = []
    for _ in range(n):
        k = rng.choice(["!C", "=C", "!K", "=K", "!C!K", "=C=K", "chord", "chord", "chord", "key", "key", "plain", None])
        if k == "chord":
            s = rng.choice(list(SYMBOL))
            acc = rng.choice(["", "", "#", "b", "##", "bb"])
            letter = rng.choice("CDEFGAB")
            inv = rng.choice([None] + list(range(INV[SYMBOL[s]])))
            pitch = LETTER[TPC][letter] + 7 * (acc.count("#") - acc.count("b"))
            out.append((f"C={letter}{acc}{s}" + ("" if inv is None else f"_{inv}"), ("chord", (SYMBOL[s], pitch, inv or 0))))
        elif k == "key":
            acc = rng.choice(["", "", "#", "b"])
            letter, major = rng.choice("CDEFGAB"), rng.random() < 0.5
            pitch = LETTER[TPC][letter] + 7 * (acc.count("#") - acc.count("b"))
            out.append((f"K={letter if major else letter.lower()}{acc}", ("key", (MODES[0] if major else MODES[1], pitch))))
        elif k == "plain":
            out.append((rng.choice(["I", "V7/V", "viio65", ".C.I", "la", "#viio7", "V(4)"]), None))
        else:
            out.append((k, k))
    return out


@harness([F + "extract_forces_from_musescore"], kind="bounded", symbolic=False, samples=250, max_seconds=60,
         bound="scores of at most 8 labels and 8 lyrics, each at most one mark or forced label")
def in_the_score(x):
    """Marks and forced chords and keys in labels and lyrics: each at its position, as what it says (type, root, inversion or
    root position; key and mode); other texts force nothing."""
    rng = random.Random(x.int("seed", 0, 10 ** 6))
    labels = [v for v in some_forces(rng, rng.choice([0, 1, 4, 8])) if v[0] is not None]
    lyrics = some_forces(rng, rng.choice([0, 1, 4, 8]))
    at = lambda i, q: (1 + i // 2, Fraction(i % 2, q))  # noqa: E731
    frame = lambda vs, col, q: pd.DataFrame({  # noqa: E731
        "mc": [at(i, q)[0] for i in range(len(vs))], "mn_onset": [at(i, q)[1] for i in range(len(vs))],
        col: pd.Series([v[0] for v in vs], dtype=object)})
    tables = frame(labels, "label", 2), frame(lyrics, "lyrics", 4)
    score = O(get_labels=lambda: tables[0].copy(), get_chords=lambda lyrics=False: tables[1].copy())
    asked = []

    def Score(path):
        asked.append(path)
        return O(annotations=score, mscx=score)

    old, fo.Score = fo.Score, Score
    try:
        with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()):
            warnings.simplefilter("ignore")
            r = x.returns("returns", x.call(fo.extract_forces_from_musescore, "a score"))
    finally:
        fo.Score = old
    x.note(labels=str([v[0] for v in labels]), lyrics=str([v[0] for v in lyrics]))
    want = [[] for _ in range(6)]
    for vs, q in ((labels, 2), (lyrics, 4)):
        for i, (text, what) in enumerate(vs):
            for j, mark in enumerate(("!C", "=C", "!K", "=K")):
                if isinstance(what, str) and mark in what:
                    want[j].append(at(i, q))
            if isinstance(what, tuple) and what[0] == "chord":
                ty, root, inv = what[1]
                want[4].append((*at(i, q), index_spec(TPC, True, False, False, None, ty, root, inv)))
            elif isinstance(what, tuple):
                want[5].append((*at(i, q), what[1][1] + 35 * MODES.index(what[1][0])))
    names = ("chord changes", "chord non-changes", "key changes", "key non-changes", "chords", "keys")
    x.check("read from the given score", asked == ["a score"])
    x.check("six kinds", len(r) == 6)
    for n, got, w in zip(names, r, want):
        x.check(n, sorted(tuple(v) for v in got) == sorted(w), f"{list(got)} for {w}")
