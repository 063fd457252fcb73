"""C15: pieces: which notes belong to which chord, how far apart they are, and what the chord classifier sees."""
from common import *
from fractions import Fraction
import contextlib
import inspect
import io
import numpy as np
import pandas as pd
from pyvc.instrument import LoopContract
from pyvc.seq import Seq, lex_less
from pyvc.smt import BOOL, INT, REAL
from pyvc.sym import Unsupported
import harmonic_inference.data.piece as pm
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.key import Key
from harmonic_inference.data.note import Note
from harmonic_inference.data.piece import Piece, ScorePiece

P = "harmonic_inference.data.piece:"
KEY = "data.piece."


def abstract(x):
    return x.symbolic and x.mode_unroll is None


class O:
    def __init__(self, **k):
        self.__dict__.update(k)


def position(x, kind, name, *k):
    if kind == "seconds":
        return x.ufun(name, REAL, *k)
    return (x.ufun(name + " mc", INT, *k), x.ufun(name + " beat", REAL, *k))


def less_eq(x, a, b):
    return x.not_(lex_less(b, a))


# ---- which note is the first one of a range -------------------------------------------------------
class FirstSounding(LoopContract):
    def __init__(self, t, sounding):
        self.t, self.sounding = t, sounding

    def inv(self, x, L):
        return [("no earlier note sounds", x.implies(self.t < L["_k"], x.not_(self.sounding(self.t))))]


@harness([P + "get_range_start"])
def range_start(x):
    """The first note that starts at or after the given time or still sounds at it; the number of notes if there is
    none. Any number of notes, in any order, times in seconds or as measure and beat."""
    kind = x.choice("times", ["score", "seconds"])
    if abstract(x):
        n = x.int("notes", 0)
        at = (x.int("mc"), x.real("beat")) if kind == "score" else x.real("time")
        on, off = lambda k: position(x, kind, "onset", k), lambda k: position(x, kind, "offset", k)
        sounding = lambda k: x.or_(less_eq(x, at, on(k)), lex_less(at, off(k)))  # noqa: E731
        t = x.int("any note", 0)
        x.assume(t < n)
        x.loop(KEY + "get_range_start#0", FirstSounding(t, sounding))
        notes = Seq(n, lambda k: O(onset=on(k), offset=off(k)))
    else:
        n = x.choice("notes", [0, 1, 2] if x.symbolic else [0, 1, 2, 3, 6, 9])

        def time(name):
            u = Fraction(x.choice(name, range(9)), 2)
            return (int(u), u - int(u)) if kind == "score" else float(u)

        ons = [time(f"on {i}") for i in range(n)]
        offs = [max(o, time(f"off {i}")) for i, o in enumerate(ons)]
        at = time("at")
        notes = [O(onset=a, offset=b) for a, b in zip(ons, offs)]
        sounding = lambda k: ons[k] >= at or offs[k] > at  # noqa: E731
        t = None
    r = x.returns("returns", x.call(pm.get_range_start, at, notes))
    if t is None:
        want = next((i for i in range(n) if sounding(i)), n)
        x.check("first sounding note", r == want)
        return
    x.check("within the piece", x.and_(r >= 0, r <= n))
    x.check("no note before it sounds", x.implies(t < r, x.not_(sounding(t))))
    x.check("it sounds", x.implies(r < n, sounding(r)))


# ---- dropping repeated chords or keys ----------------------------------------------------------------
class SeqNp:
    """numpy on sequences of any length: constructors used here."""

    def __init__(self, x):
        self.x = x

    def __getattr__(self, n):
        raise Unsupported("numpy." + n + " on a sequence of any length")

    @property
    def bool_(self):
        return np.bool_

    def full(self, n, v, dtype=None):
        return Seq(n, lambda k: v)

    def ones(self, n, dtype=None):
        return Seq(n, lambda k: True if dtype is bool else 1)

    def array(self, v, dtype=None):
        return v if isinstance(v, Seq) else np.array(v, dtype=dtype)

    def sum(self, v):
        f = getattr(type(v), "vc_sum", None)
        if f is None:
            raise Unsupported("numpy.sum")
        return f(v)


class Masking(LoopContract):
    needs = ("mask",)

    def __init__(self, t, repeated):
        self.t, self.repeated = t, repeated

    def havoc(self, x, L):
        n = L["mask"].n
        return {"mask": Seq(n, lambda k: x.ufun("mask so far", BOOL, k))}

    def inv(self, x, L):
        t, m = self.t, L["mask"]
        if not isinstance(m, Seq):
            raise Unsupported("mask")
        done = x.and_(t >= 1, t <= L["_k"])
        return [("entries", x.iff(m.fn(t), x.implies(done, x.not_(self.repeated(t)))))]


@harness([P + "get_reduction_mask"])
def reduction_mask(x):
    """One entry per element: false exactly on those that repeat the one before them (asked with the given options)."""
    options = x.choice("options", [None, {"use_inversion": False}, {"use_inversion": True, "use_suspension": True}])
    asked = options or {}
    if abstract(x):
        n = x.int("elements", 0)
        rep = lambda a, b: x.ufun("repeats", BOOL, a, b)  # noqa: E731

        class El:
            def __init__(self, k):
                self.k = k

            def is_repeated(self, other, **kw):
                x.check("asked with the options", kw == asked)
                return rep(self.k, other.k)

        t = x.int("any element", 0)
        x.assume(t < n)
        repeated = lambda k: rep(k, k - 1)  # noqa: E731
        x.replace(pm, "np", SeqNp(x), "numpy full/array (documented meaning)")
        x.loop(KEY + "get_reduction_mask#0", Masking(t, repeated))
        m = x.returns("returns", x.call(pm.get_reduction_mask, Seq(n, El), options))
        x.check("one entry per element", m.vc_len() == n)
        x.check("repeats and only repeats dropped", x.iff(m.fn(t), x.or_(t == 0, x.not_(repeated(t)))))
        return
    n = x.choice("elements", [0, 1, 2, 3] if x.symbolic else [0, 1, 2, 3, 7])
    kinds = [x.choice(f"kind {i}", [0, 1, 2]) for i in range(n)]
    good = []

    class El:
        def __init__(self, k):
            self.k = k

        def is_repeated(self, other, **kw):
            good.append(kw == asked)
            return kinds[self.k] == kinds[other.k] and self.k > other.k

    m = x.returns("returns", x.call(pm.get_reduction_mask, [El(k) for k in range(n)], options))
    x.check("asked with the options", all(good))
    x.check("repeats and only repeats dropped", [bool(v) for v in m] == [i == 0 or kinds[i] != kinds[i - 1] for i in range(n)])
    keep = np.arange(n)[m]
    x.check("usable as a mask", list(keep) == [i for i in range(n) if i == 0 or kinds[i] != kinds[i - 1]])


# ---- the chords sounding between two inputs -----------------------------------------------------
class Chorded(Piece):
    def __init__(self, chords, changes):
        self.c, self.ch = chords, changes

    def get_chords(self):
        return self.c

    def get_chord_change_indices(self):
        return self.ch


class SeqBisect:
    """Assumed contract of bisect on a sorted sequence of any length."""

    def __init__(self, x, t):
        self.x, self.t = x, t

    def _find(self, a, v, lo, before):
        x, n = self.x, a.vc_len()
        if not (lo >= 0 and lo <= n):
            raise Unsupported("bisect bounds")
        i = x.fresh_int("position")
        x.assume(x.and_(i >= lo, i <= n))
        for t in (i - 1, i, self.t, self.t + 1):
            x.assume(x.implies(x.and_(t >= lo, t < i), before(a.fn(t), v)))
            x.assume(x.implies(x.and_(t >= i, t < n), x.not_(before(a.fn(t), v))))
        return i

    def bisect_left(self, a, v, lo=0, hi=None):
        if hi is not None:
            raise Unsupported("hi")
        return self._find(a, v, lo, lambda e, w: e < w)

    def bisect_right(self, a, v, lo=0, hi=None):
        if hi is not None:
            raise Unsupported("hi")
        return self._find(a, v, lo, lambda e, w: e <= w)

    bisect = bisect_right

    def __getattr__(self, n):
        raise Unsupported("bisect." + n)


@harness([P + "Piece.get_chords_within_range"])
def chords_within(x):
    """The chords between two inputs: from the one sounding at the first to the one sounding before the second, in
    order; none that begins at or after the end, none that has ended before the start."""
    open_end = x.choice("open end", [True, False])
    if abstract(x):
        m = x.int("chords", 1)
        change = lambda k: x.ufun("change", INT, k)  # noqa: E731
        t = x.int("any chord", 0)
        x.assume(t < m)
        start = x.int("start", 0)
        stop = None if open_end else x.int("stop", 0)
        if stop is not None:
            x.assume(stop >= start)
        # chord changes are in order
        x.assume(x.implies(t + 1 < m, change(t) <= change(t + 1)))
        x.replace(pm, "bisect", SeqBisect(x, t), "bisect on a sorted sequence (standard library)")
        piece = Chorded(Seq(m, lambda k: k), Seq(m, change))
        got = x.returns("returns", x.call(piece.get_chords_within_range, start, stop))
        if isinstance(got, list) and not got:
            got = Seq(0, lambda k: k)
        if not isinstance(got, Seq):
            raise Unsupported("result")
        first = got.fn(0)
        inside = x.and_(t >= first, t < first + got.n)
        k = x.fresh_int("k")
        x.assume(x.and_(k >= 0, k < got.n))
        x.check("consecutive chords of the piece", x.and_(got.fn(k) == first + k, got.fn(k) >= 0, got.fn(k) < m))
        inside = x.and_(got.n > 0, inside)
    else:
        m = x.choice("chords", [1, 2, 3] if x.symbolic else [1, 2, 3, 6])
        steps = [x.choice(f"step {i}", [0, 1, 2, 3]) for i in range(m)]
        ch = [sum(steps[: i + 1]) for i in range(m)]
        start = x.choice("start", range(0, 14))
        stop = None if open_end else start + x.choice("length", range(0, 9))
        as_array = x.choice("array", [True, False])
        piece = Chorded(list(range(m)), np.array(ch) if as_array else ch)
        got = list(x.returns("returns", x.call(piece.get_chords_within_range, start, stop)))
        change = lambda k: ch[k]  # noqa: E731
        if start == 0 and stop is None:
            x.check("omitted: all of the piece", got == list(x.returns("short returns", x.call(piece.get_chords_within_range))))
        x.check("in order, each once", got == sorted(set(got)))
        t = x.choice("chord", range(m))
        inside = t in got
    begins = True if stop is None else change(t) < stop
    still = x.or_(change(t) >= start, t == m - 1, change(t + 1 if x.symbolic or t + 1 < m else t) > start)
    x.check("exactly the sounding chords", x.iff(inside, x.and_(begins, still)))


@harness([P + "Piece.get_chords_within_range", P + "Piece.get_key_change_input_indices"])
def key_change_inputs(x):
    """Key changes as input indexes: those of the chords at which they happen. Without chords: nothing."""

    class K(Chorded):
        def __init__(self, *a, kc=None):
            super().__init__(*a)
            self.kc = kc

        def get_key_change_indices(self):
            return self.kc

    if abstract(x):
        k, m = x.int("keys", 0), x.int("chords", 0)
        change = lambda i: x.ufun("change", INT, i)  # noqa: E731

        def at(i):
            v = x.ufun("key change", INT, i)
            x.assume(x.and_(v >= 0, v < m))
            return v

        got = x.returns("returns", x.call(K(None, Seq(m, change), kc=Seq(k, at)).get_key_change_input_indices))
        x.check("one per key", got.vc_len() == k)
        t = x.int("any key", 0)
        x.assume(t < k)
        x.check("input of its chord", got.vc_at(t) == change(at(t)))
    else:
        m = x.choice("chords", [1, 4])
        ch = [x.choice(f"change {i}", range(9)) for i in range(m)]
        kc = [i for i in range(m) if x.choice(f"key {i}", [True, False])]
        got = x.returns("returns", x.call(K(None, np.array(ch), kc=np.array(kc, dtype=int)).get_key_change_input_indices))
        x.check("inputs of their chords", list(got) == [ch[i] for i in kc])
    none = K(None, None)
    x.check("no chords", x.returns("returns", x.call(none.get_chords_within_range, 0)) == [])
    x.check("no changes", x.returns("returns", x.call(none.get_key_change_input_indices)) is None)


# ---- distances between neighbouring notes ---------------------------------------------------------
def bare_piece(**k):
    p = object.__new__(ScorePiece)
    p.duration_cache = None
    p.name = None
    p.__dict__.update(k)
    return p


@harness([P + "ScorePiece.get_duration_cache"])
def durations(x):
    """One distance per note: to the next note's onset, from the last one to the end of the last chord (without
    chords: to the latest end of a note). Asking again gives the same."""
    with_chords = x.choice("chords given", [True, False])
    if abstract(x):
        n, m = x.int("notes", 1), x.int("chords", 1)
        on, off = lambda k: position(x, "score", "onset", k), lambda k: position(x, "score", "offset", k)
        end = lambda k: position(x, "score", "chord end", k)  # noqa: E731
        place = lambda p: x.ufun("place", REAL, *p)  # noqa: E731
        measures = O()

        def dist(a, b, measures_df):
            x.check("measured in this piece's measures", measures_df is measures)
            return place(b) - place(a)

        x.stub(pm.ru, "get_range_length", dist)
        x.replace(pm, "np", SeqNp(x), "numpy array (documented meaning)")
        t = x.int("any note", 0)
        x.assume(t < n)
        x.tracked.append(t)
        piece = bare_piece(
            measures_df=measures,
            notes=Seq(n, lambda k: O(onset=on(k), offset=off(k))),
            chords=Seq(m, lambda k: O(offset=end(k))) if with_chords else None,
        )
        d = x.returns("returns", x.call(piece.get_duration_cache))
        x.check("one distance per note", d.vc_len() == n)
        if t == n - 1:
            if with_chords:
                x.check("last note to the end of the last chord", d.vc_at(t) == place(end(m - 1)) - place(on(t)))
            else:
                ok = [
                    x.and_(
                        j >= 0, j < n, less_eq(x, off(t), off(j)), d.vc_at(t) == place(off(j)) - place(on(t))
                    )
                    for _, j in x.witness
                ]
                x.check("last note to the latest end", x.or_(*ok) if ok else False)
        else:
            x.check("to the next note", d.vc_at(t) == place(on(t + 1)) - place(on(t)))
        again = x.returns("returns again", x.call(piece.get_duration_cache))
        x.check("the same again", again.vc_len() == n and again.vc_at(t) == d.vc_at(t))
        return
    w = World(x, with_chords)
    d = x.returns("returns", x.call(w.piece.get_duration_cache))
    ends = [w.chords[-1].offset] if with_chords else [max(n.offset for n in w.notes)]
    at = [w.place(n.onset) for n in w.notes] + [w.place(ends[0])]
    x.check("distances", [Fraction(v) for v in d] == [b - a for a, b in zip(at, at[1:])])
    x.check("the same again", list(w.piece.get_duration_cache()) == list(d))


# ---- a whole piece, with real notes ---------------------------------------------------------------
class World:
    """A small real piece: measures of changing meter, notes in order, chords at some of the onsets."""

    def __init__(self, x, with_chords=True, name="w"):
        n = x.choice("measures", [1, 2, 4])
        self.start, self.off, rows = [], [], []
        at = Fraction(0)
        for i in range(n):
            d = x.choice(f"length {i}", [Fraction(1), Fraction(3, 4), Fraction(1, 2)])
            o = Fraction(1, 4) if i == 0 and x.choice("pickup", [False, True]) else Fraction(0)
            d = d - o
            rows.append((i, d, o, i + 1 if i + 1 < n else None, "4/4"))
            self.start.append(at)
            self.off.append(o)
            at += d
        self.total = at
        self.df = pd.DataFrame(rows, columns=["mc", "act_dur", "mc_offset", "next", "timesig"])
        self.df["next"] = pd.Series([r[3] for r in rows], dtype=object)
        q = Fraction(1, 8)
        steps = int(at / q)
        k = x.choice("notes", [1, 2, 3, 5, 8])
        ons = sorted(q * x.choice(f"on {i}", range(steps)) for i in range(k))
        self.notes = []
        for i, a in enumerate(ons):
            b = min(a + q * x.choice(f"len {i}", [1, 1, 2, 4, 6]), at)
            self.notes.append(
                Note(
                    x.choice(f"pitch {i}", range(8, 27)),
                    x.choice(f"octave {i}", range(2, 7)),
                    self.pos(a),
                    x.choice(f"lv {i}", range(4)),
                    b - a,
                    self.pos(b),
                    x.choice(f"lw {i}", range(4)),
                    TPC,
                )
            )
        self.chords = None
        self.changes = self.ranges = None
        if with_chords:
            m = x.choice("chords", [1, 2, 3])
            aligned = x.choice("aligned", [True, False])
            pool = sorted(set(ons) | {Fraction(0)} | (set() if aligned else {q * i for i in range(steps)}))
            cut = sorted({x.choice(f"chord {i}", pool) for i in range(m)})
            self.chords = [
                Chord(15, 15, 15, KeyMode.MAJOR, ChordType.MAJOR, 0, self.pos(a), 0, self.pos(b), 0, b - a, TPC)
                for a, b in zip(cut, cut[1:] + [at])
                if b > a
            ]
            m = len(self.chords)
            first = [next((i for i, nt in enumerate(self.notes) if nt.onset >= c.onset), k - 1) for c in self.chords]
            self.changes = first
            self.ranges = [
                (next((i for i, nt in enumerate(self.notes) if nt.onset >= c.onset or nt.offset > c.onset), k), e)
                for c, e in zip(self.chords, first[1:] + [k])
            ]
        with contextlib.redirect_stderr(io.StringIO()):
            self.piece = ScorePiece(
                self.df, self.notes, self.chords, [] if with_chords else None, self.changes, self.ranges, [0], name=name
            )

    def pos(self, p):
        """Score position of an absolute time (the end of the piece stays in the last measure)."""
        i = max(j for j, s in enumerate(self.start) if s <= p)
        return (i, p - self.start[i] + self.off[i])

    def place(self, p):
        return self.start[p[0]] + p[1] - self.off[p[0]]


# ---- the notes shown to the chord classifier -------------------------------------------------------
TO_VEC = inspect.signature(Note.to_vec)


class Row:
    def __init__(self, k, kw):
        self.k, self.kw = k, kw


class Zero:
    pass


class Mat:
    """A matrix of any number of rows."""

    def __init__(self, n, row, cols=7):
        self.n, self.row, self.cols = n, row, cols

    @property
    def shape(self):
        return (self.n, self.cols)

    def vc_len(self):
        return self.n

    def __setitem__(self, s, v):
        if not isinstance(s, slice) or s.step is not None or not isinstance(v, Mat):
            raise Unsupported("matrix assignment")
        t = Seq(self.n, lambda k: k)
        a, b = t._clamp(s.start, 0), t._clamp(s.stop, self.n)
        x = sym.ENG
        x.check("as many rows as the place they go to", x.or_(v.n == b - a, x.and_(v.n == 1, b - a >= 0)))
        old, new = self.row, v.row
        single = v.n == 1

        def row(k):
            if x.and_(k >= a, k < b):
                return new(0) if single and True and not (v.n > 1) else new(k - a)
            return old(k)

        self.row = row

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported("matrix." + n)


class MatNp(SeqNp):
    def vstack(self, s):
        if not isinstance(s, Seq):
            raise Unsupported("vstack")
        if not s.n > 0:
            raise ValueError("need at least one array")
        return Mat(s.n, s.fn)

    def zeros(self, shape, dtype=None):
        if not (isinstance(shape, tuple) and len(shape) == 2):
            raise Unsupported("zeros")
        return Mat(shape[0], lambda k: Zero(), shape[1])


class Onsets(LoopContract):
    needs = ("note_onsets",)

    def __init__(self, first, t, spec):
        self.first, self.t, self.spec = first, t, spec

    def havoc(self, x, L):
        return {"note_onsets": Seq(L["_k"], lambda k: x.ufun("onset so far", REAL, k))}

    def inv(self, x, L):
        v = L["note_onsets"]
        n = v.n if isinstance(v, Seq) else len(v)
        if not isinstance(v, Seq) and n:
            raise Unsupported("onset list")
        j = self.t - self.first
        c = [("one per note", n == L["_k"])]
        if isinstance(v, Seq):
            c.append(("distance", x.implies(x.and_(j >= 0, j < n), v.fn(j) == self.spec(self.t))))
        return c


@harness([P + "get_chord_note_input"], budget=200)
def window_contract(x):
    """The notes of a chord with their neighbours, in order; rows of zeros where the window leaves the piece. Each
    note is described relative to the chord's onset, end and duration, with its distances to the notes before and
    after it, and the lowest and highest note of the window."""
    if not abstract(x):
        return window_concrete(x)
    n = x.int("notes", 1)
    window = x.int("window", 0)
    a, b = x.int("first", 0), x.int("end", 0)
    x.assume(x.and_(a <= b, b <= n))
    change = x.int("change", 0)
    x.assume(change < n)
    first, last = sym.maximum(a - window, 0), sym.minimum(b + window, n)
    x.assume(first < last)  # the window contains a note
    size = b - a + 2 * window
    r = x.int("any row", 0)
    x.assume(r < size)
    t = a - window + r  # the note that row stands for
    x.tracked.append(t)
    S = lambda k: x.ufun("time of note", REAL, k)  # noqa: E731
    D = lambda k: x.ufun("to next", REAL, k)  # noqa: E731
    cache = Seq(n, D, prefix=S)
    x.assume(S(0) == 0)
    given = x.choice("chord given", [False, True])
    onset, offset, dur = x.real("onset"), x.real("offset"), x.real("duration")
    chord = O(onset=x.real("chord onset"), offset=x.real("chord offset")) if given else None
    measures = O()
    octave = lambda k: x.ufun("octave", INT, k)  # noqa: E731
    midi = lambda k: x.ufun("midi", INT, k)  # noqa: E731

    class N:
        def __init__(self, k):
            self.k = k
            self.octave = octave(k)

        def get_midi_note_number(self):
            return midi(self.k)

        def to_vec(self, *p, **kw):
            bound = TO_VEC.bind(self, *p, **kw)
            bound.apply_defaults()
            return Row(self.k, dict(bound.arguments))

        def __getattr__(self, nm):
            if nm.startswith("__"):
                raise AttributeError(nm)
            raise Unsupported("note." + nm)

    x.replace(pm, "np", MatNp(x), "numpy zeros, vstack, sum, slice assignment (documented meaning)")
    x.loop(KEY + "get_chord_note_input#0", Onsets(first, t, lambda k: S(k) - S(change)))
    out = x.call(
        pm.get_chord_note_input,
        Seq(n, N), measures, onset, offset, dur, change, a, b, window, duration_cache=cache, chord=chord,
    )
    got = x.returns("returns", out)
    if not isinstance(got, Mat):
        raise Unsupported("result")
    x.check("one row per note of the window", got.n == size)
    row = got.row(r)
    if x.and_(t >= 0, t < n):
        x.check("a row for a note of the piece", isinstance(row, Row))
        x.check("the right note", row.k == t)
        kw = row.kw
        if given:
            x.check("chord onset", kw["chord_onset"] == chord.onset)
            x.check("chord offset", kw["chord_offset"] == chord.offset)
        else:
            x.check("range onset", kw["chord_onset"] == onset)
            x.check("range offset", kw["chord_offset"] == offset)
        x.check("duration", kw["chord_duration"] == dur)
        x.check("measures", kw["measures_df"] is measures)
        low, high = kw["min_pitch"], kw["max_pitch"]
        pitch = lambda k: (octave(k), midi(k))  # noqa: E731
        same = lambda u, v: x.and_(u[0] == v[0], u[1] == v[1])  # noqa: E731
        x.check("no note of the window lower", less_eq(x, low, pitch(t)))
        x.check("no note of the window higher", less_eq(x, pitch(t), high))
        wit = [first + j for _, j in x.witness]
        att = lambda v: x.or_(*[x.and_(w >= first, w < last, same(v, pitch(w))) for w in wit])  # noqa: E731
        x.check("lowest note is one", att(low))
        x.check("highest note is one", att(high))
        at = kw["note_onset"]
        if given and at is None:
            x.check("time computed from the score only where chord and range start apart", chord.onset != onset)
        else:
            x.check("time after the range's onset", at == S(t) - S(change))
            if given:
                x.check("times only where chord and range start together", chord.onset == onset)
        prev, nxt = kw["dur_from_prev"], kw["dur_to_next"]
        x.check("to the next note", nxt == D(t))
        if t == 0:
            x.check("nothing before the first note", prev is None)
        else:
            x.check("from the note before", prev is not None and prev == D(t - 1))
    else:
        x.check("zeros beyond the piece", isinstance(row, Zero))


def window_concrete(x):
    with_chords = x.choice("chords given", [True, False])
    w = World(x, with_chords)
    n = len(w.notes)
    window = x.choice("window", [0, 1, 2, 5])
    b = x.choice("end", range(1, n + 1))
    a = x.choice("first", range(0, b))
    change = x.choice("change", range(a, b))
    at = [w.place(nt.onset) for nt in w.notes]
    end = w.place(w.chords[-1].offset) if with_chords else max(w.place(nt.offset) for nt in w.notes)
    cache = np.array([q - p for p, q in zip(at, at[1:] + [end])])
    calls = Recorder()
    onset = w.notes[change].onset
    dur = Fraction(x.choice("dur", [1, 2, 3]), 4)
    chord = x.choice("chord", [None] + list(range(len(w.chords or [])))) if with_chords else None
    chord = None if chord is None else w.chords[chord]
    offset = w.pos(end)
    got = x.returns(
        "returns",
        x.call(
            pm.get_chord_note_input, [Spy(nt, calls) for nt in w.notes], w.df, onset, offset, dur, change, a, b, window,
            duration_cache=cache, chord=chord,
        ),
    )
    check_window(x, w, got, calls.log, a, b, window, onset, offset, dur, change, chord, at, cache)


class Recorder:
    def __init__(self):
        self.log = []


class Spy:
    """A real note that writes down how its vector was asked for."""

    def __init__(self, note, rec):
        self.__dict__.update(note=note, rec=rec)

    def __getattr__(self, n):
        return getattr(self.__dict__["note"], n)

    def to_vec(self, *p, **kw):
        bound = TO_VEC.bind(self, *p, **kw)
        bound.apply_defaults()
        self.rec.log.append((self.note, dict(bound.arguments)))
        return self.note.to_vec(*p, **kw)


def check_window(x, w, got, log, a, b, window, onset, offset, dur, change, chord, at, cache):
    n = len(w.notes)
    ids = list(range(a - window, b + window))
    inside = [i for i in ids if 0 <= i < n]
    x.check("one row per note of the window", len(got) == len(ids))
    x.check("the notes of the window, in order", [id(nt) for nt, _ in log] == [id(w.notes[i]) for i in inside])
    pitches = [(w.notes[i].octave, w.notes[i].get_midi_note_number()) for i in inside]
    for i, (nt, kw) in zip(inside, log):
        on, off = (onset, offset) if chord is None else (chord.onset, chord.offset)
        x.check("chord onset", kw["chord_onset"] == on)
        x.check("chord offset", kw["chord_offset"] == off)
        x.check("duration", kw["chord_duration"] == dur)
        x.check("lowest note", kw["min_pitch"] == min(pitches))
        x.check("highest note", kw["max_pitch"] == max(pitches))
        v = kw["note_onset"]
        start = w.place(on)
        if v is not None:
            x.check("time after the chord's onset", v == at[i] - start)
        x.check("to the next note", kw["dur_to_next"] == cache[i])
        x.check("from the note before", kw["dur_from_prev"] == (cache[i - 1] if i else None))
    for k, i in enumerate(ids):
        if not 0 <= i < n:
            x.check("zeros beyond the piece", not np.any(got[k]))
        else:
            nt, kw = log[inside.index(i)]
            kw = {q: v for q, v in kw.items() if q != "self"}
            x.check("the note's vector in its row", np.allclose(got[k], nt.to_vec(**kw)))


# ---- one input per chord or per given range -----------------------------------------------------------
ONE = inspect.signature(pm.get_chord_note_input)


class Collect(LoopContract):
    needs = ("chord_note_inputs",)

    def __init__(self, t):
        self.t, self.now = t, None

    def havoc(self, x, L):
        self.now = L["_k"]
        return {"chord_note_inputs": Seq(L["_k"], lambda k: x.ufun("collected", INT, k))}

    def inv(self, x, L):
        v = L["chord_note_inputs"]
        if isinstance(v, list):
            if v:
                raise Unsupported("collected list")
            v = Seq(0, lambda k: k)
        n = v.vc_len()
        return [
            ("one input per range", n == L["_k"]),
            ("in order", x.implies(x.and_(self.t >= 0, self.t < n), v.fn(self.t) == self.t)),
        ]


@harness([P + "ScorePiece.get_chord_note_inputs"], budget=200, samples=150)
def all_windows(x):
    """One input per chord of the piece (or per given range), in order: from the onset of its first new note to the
    onset of the note after it (or the end of the piece), with the chord's own duration or the range's."""
    given = x.choice("ranges given", [True, False])
    with_chords = True if not given else x.choice("chords", [True, False])
    if not abstract(x):
        return all_windows_concrete(x, given, with_chords)
    n, m = x.int("notes", 1), x.int("ranges", 0)
    window = x.int("window", 0)
    on, off = lambda k: position(x, "score", "onset", k), lambda k: position(x, "score", "offset", k)
    S = lambda k: x.ufun("time of note", REAL, k)  # noqa: E731
    cache = Seq(n, lambda k: x.ufun("to next", REAL, k), prefix=S)
    x.assume(S(0) == 0)
    A, B, C_ = [(lambda k, nm=nm: x.ufun(nm, INT, k)) for nm in ("first", "end", "change")]

    def rng(k):
        x.assume(x.and_(A(k) >= 0, A(k) <= C_(k), C_(k) < n, C_(k) <= B(k), B(k) <= n))
        return (A(k), B(k))

    class Ch:
        def __init__(self, k):
            self.k, self.duration, self.offset = k, x.ufun("chord duration", REAL, k), position(x, "score", "chord end", k)

    measures = O()
    nch = m if not given else x.int("number of chords", 1)
    if not given:
        x.assume(m >= 1)
    piece = bare_piece(
        measures_df=measures,
        notes=Seq(n, lambda k: O(onset=on(k), offset=off(k))),
        chords=Seq(nch, Ch) if with_chords else None,
        chord_ranges=None if given else Seq(m, rng),
        chord_changes=None if given else Seq(m, lambda k: (rng(k), C_(k))[1]),
    )
    piece.duration_cache = cache
    t = x.int("any range", 0)
    x.assume(t < m)
    loop = Collect(t)
    x.loop(KEY + "ScorePiece.get_chord_note_inputs#0", loop)
    end_of_piece = []

    def one(*p, **kw):
        b = ONE.bind(*p, **kw)
        b.apply_defaults()
        g, k = b.arguments, loop.now
        same = lambda u, v: x.and_(u[0] == v[0], u[1] == v[1])  # noqa: E731
        x.check("the piece's notes", g["notes"] is piece.notes and g["measures_df"] is measures)
        x.check("the piece's distances", g["duration_cache"].prefix is S)
        x.check("range", x.and_(g["onset_index"] == A(k), g["offset_index"] == B(k), g["change_index"] == C_(k)))
        x.check("window", g["window"] == window)
        x.check("from the onset of its first new note", same(g["chord_onset"], on(C_(k))))
        if B(k) < n:
            x.check("to the onset of the note after it", same(g["chord_offset"], on(B(k))))
        elif with_chords:
            x.check("to the end of the last chord", same(g["chord_offset"], position(x, "score", "chord end", nch - 1)))
        else:
            e = g["chord_offset"]
            x.check("to the latest end of a note", x.or_(*[same(e, off(j)) for _, j in x.witness]))
            for q in x.tracked:
                x.check("no note ends later", x.implies(x.and_(q >= 0, q < n), less_eq(x, off(q), e)))
        if given:
            x.check("no chord", g["chord"] is None)
            x.check("duration of the range", g["chord_duration"] == S(B(k)) - S(C_(k)))
        else:
            x.check("its chord", g["chord"].k == k)
            x.check("the chord's duration", g["chord_duration"] == x.ufun("chord duration", REAL, k))
        return k

    q = x.int("any note", 0)
    x.tracked.append(q)
    x.stub(pm, "get_chord_note_input", one)
    x.replace(pm, "np", MatNp(x), "numpy sum (documented meaning)")
    x.replace(pm, "tqdm", lambda it, **k: it, "tqdm passes its items through")
    kw = dict(ranges=Seq(m, rng), change_indices=Seq(m, lambda k: (rng(k), C_(k))[1])) if given else {}
    got = x.returns("returns", x.call(piece.get_chord_note_inputs, window=window, **kw))
    if isinstance(got, list):
        got = Seq(len(got), lambda k: got[k])
    x.check("one input per range", got.vc_len() == m)
    x.check("in order", got.vc_at(t) == t)


def all_windows_concrete(x, given, with_chords):
    w = World(x, with_chords)
    n = len(w.notes)
    at = [w.place(nt.onset) for nt in w.notes]
    end = w.chords[-1].offset if with_chords else max(nt.offset for nt in w.notes)
    cache = [q - p for p, q in zip(at, at[1:] + [w.place(end)])]
    kw = {}
    if given:
        rs, cs = [], []
        for i in range(x.choice("ranges", [0, 1, 3])):
            b = x.choice(f"end {i}", range(1, n + 1))
            c = x.choice(f"change {i}", range(b))
            rs.append((x.choice(f"first {i}", range(c + 1)), b))
            cs.append(c)
        kw = dict(ranges=rs, change_indices=cs)
        chords = [None] * len(rs)
    else:
        rs, cs, chords = w.ranges, w.changes, w.chords
        # a range without notes and without neighbours shows nothing
        x.assume(all(a < b for a, b in rs))
    window = x.choice("window", [0, 1, 2, 3])
    log = Recorder()
    w.piece.notes = np.array([None] * n, dtype=object)
    for i, nt in enumerate(w.notes):
        w.piece.notes[i] = Spy(nt, log)
    with contextlib.redirect_stderr(io.StringIO()):
        got = x.returns("returns", x.call(w.piece.get_chord_note_inputs, window=window, **kw))
    x.check("one input per range", len(got) == len(rs))
    k = 0
    for one, (a, b), c, ch in zip(got, rs, cs, chords):
        size = len([i for i in range(a - window, b + window) if 0 <= i < n])
        offset = w.notes[b].onset if b < n else end
        dur = sum(cache[c:b], Fraction(0)) if ch is None else ch.duration
        check_window(x, w, one, log.log[k : k + size], a, b, window, w.notes[c].onset, offset, dur, c, ch, at, cache)
        k += size


# ---- a piece built from tables --------------------------------------------------------------------------
def tables(x):
    """Random but well-formed tables of notes, chords and measures (also rows that cannot be read)."""
    w = World(x, False)
    rows = []
    for i, nt in enumerate(w.notes):
        bad = x.choice(f"unreadable note {i}", [False, False, False, False, True])
        p = nt.pitch_class - 15
        rows.append(
            {
                "midi": 12 * nt.octave + (7 * p) % 12, "tpc": 99 if bad else p, "mc": nt.onset[0], "mn_onset": nt.onset[1],
                "mc_onset": nt.onset[1] - w.off[nt.onset[0]], "offset_mc": nt.offset[0], "offset_beat": nt.offset[1],
                "duration": nt.duration,
            }
        )
    if all(r["tpc"] == 99 for r in rows):
        rows[0]["tpc"] = 0
    q = Fraction(1, 8)
    m = x.choice("chords", [1, 2, 3, 5])
    cut = sorted({q * x.choice(f"chord {i}", range(int(w.total / q))) for i in range(m)})
    crow = []
    for i, (a, b) in enumerate(zip(cut, cut[1:] + [w.total])):
        crow.append(
            {
                "numeral": x.choice(f"numeral {i}", ["I", "I", "V", "ii", "@none"]) if i else "I",
                "root": x.choice(f"root {i}", [0, 1, -1]),
                "chord_type": x.choice(f"type {i}", ["M", "m", "Mm7"]),
                "figbass": x.choice(f"figbass {i}", [None, "6", "64"]),
                "globalkey": "C", "globalkey_is_minor": False,
                "localkey": x.choice(f"local {i}", ["I", "V", "vi"]),
                "localkey_is_minor": False,
                "relativeroot": x.choice(f"applied {i}", [None, None, "V", "I"]),
                "mc": w.pos(a)[0], "mn_onset": w.pos(a)[1], "mc_next": w.pos(b)[0], "mn_onset_next": w.pos(b)[1],
                "duration": b - a, "changes": x.choice(f"altered {i}", [None, "4", "9"]),
            }
        )
        crow[-1]["localkey_is_minor"] = crow[-1]["localkey"].islower()
    frame = lambda r: pd.DataFrame({k: pd.Series([v[k] for v in r], dtype=object) for k in r[0]})  # noqa: E731
    return w, frame(rows), frame(crow)


@harness(
    [P + "get_score_piece_from_data_frames", P + "ScorePiece.__init__", P + "get_reduction_mask", P + "get_range_start"],
    kind="bounded", bound="random tables of at most 8 notes, 5 chords, 4 measures", symbolic=False, samples=250, max_seconds=40,
)
def built_from_tables(x):
    """The piece holds the readable notes and chords in order, consecutive repeats merged; each chord changes at its
    first new note and ranges from the first note sounding in it to the next chord's change; keys where they differ."""
    w, nd, cd = tables(x)
    inv, rel, sus = [x.choice(k, [True, False]) for k in ("inversions", "applied keys", "suspensions")]
    red = x.choice("reduction", [NO_REDUCTION, TRIAD_REDUCTION, OWN_REDUCTION])
    with contextlib.redirect_stderr(io.StringIO()):
        kw = dict(reduction=red, use_inversion=inv, use_relative=rel)
        notes = [Note.from_series(r, w.df, TPC) for _, r in nd.iterrows()]
        notes = [n for n in notes if n is not None]
        raw = [(Chord.from_series(r, w.df, TPC, **kw), r) for _, r in cd.iterrows()]
        raw = [(c, r) for c, r in raw if c is not None]
        out = x.call(
            pm.get_score_piece_from_data_frames, nd, cd, w.df, chord_reduction=red, use_inversions=inv, use_relative=rel,
            use_suspensions=sus, name="piece",
        )
    p = x.returns("returns", out)
    x.check("the readable notes in order", list(p.get_inputs()) == notes)
    want, rows = [], []
    for i, (c, r) in enumerate(raw):
        before = raw[i - 1][0] if i else None
        same = before is not None and (before.root, before.chord_type) == (c.root, c.chord_type)
        same = same and (not inv or before.inversion == c.inversion) and (not sus or before.suspension == c.suspension)
        if same:
            k = want[-1]
            k["offset"], k["offset_level"], k["duration"] = c.offset, c.offset_level, k["duration"] + c.duration
        else:
            want.append(c.to_dict())
            rows.append(r)
    x.check("the readable chords, repeats merged", list(p.get_chords()) == [Chord(**k) for k in want])
    n = len(notes)
    first = [next((i for i, nt in enumerate(notes) if nt.onset >= c["onset"]), n - 1) for c in want]
    x.check("chord changes", [int(v) for v in p.get_chord_change_indices()] == first)
    start = [next((i for i, nt in enumerate(notes) if nt.onset >= c["onset"] or nt.offset > c["onset"]), n) for c in want]
    x.check("chord ranges", [tuple(int(u) for u in v) for v in p.get_chord_ranges()] == list(zip(start, first[1:] + [n])))
    ks = [Key.from_series(r, TPC) for r in rows]
    name = (lambda k: (k.relative_tonic, k.relative_mode)) if rel else (lambda k: (k.local_tonic, k.local_mode))
    at = [i for i, k in enumerate(ks) if i == 0 or name(ks[i - 1]) != name(k)]
    x.check("key changes", [int(v) for v in p.get_key_change_indices()] == at)
    x.check("keys", [name(k) for k in p.get_keys()] == [name(ks[i]) for i in at])
    x.check("name", p.name == "piece")
    x.check("measures", p.measures_df is w.df or p.measures_df.equals(w.df))
    d = p.to_dict()
    back = pm.get_score_piece_from_dict(w.df, d, name="again")
    for f in ("get_inputs", "get_chords", "get_keys"):
        x.check("stored and loaded: the same objects", list(getattr(back, f)()) == list(getattr(p, f)()))
    for f in ("get_chord_change_indices", "get_chord_ranges", "get_key_change_indices"):
        x.check("stored and loaded: the same indexes", np.array_equal(getattr(back, f)(), getattr(p, f)()))
    with contextlib.redirect_stderr(io.StringIO()):
        short = x.returns("omitted options return", x.call(pm.get_score_piece_from_data_frames, nd, cd, w.df))
        full = pm.get_score_piece_from_data_frames(
            nd, cd, w.df, chord_reduction=NO_REDUCTION, use_inversions=True, use_relative=True, use_suspensions=False)
    x.check("omitted options: everything but suspensions", list(short.get_chords()) == list(full.get_chords())
            and list(short.get_keys()) == list(full.get_keys()))
    alone = x.returns("notes alone", x.call(pm.get_score_piece_from_data_frames, nd, None, w.df))
    x.check("notes alone", list(alone.get_inputs()) == notes and alone.get_chords() is None and alone.get_keys() is None)
