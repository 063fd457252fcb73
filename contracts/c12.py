"""C12: what the vectors fed to the models say: exactly the chord, note or key change they stand for."""
from common import *
from fractions import Fraction
import numpy as np
from pyvc.sym import Unsupported
from avec import AVec, VecNp, same_vector
from c07 import CONTENT, tones
import harmonic_inference.data.chord as chord_mod
import harmonic_inference.data.key as key_mod
import harmonic_inference.data.note as note_mod
from harmonic_inference.data.chord import Chord, get_chord_vector_length
from harmonic_inference.data.key import Key
from harmonic_inference.data.note import Note, get_note_vector_length

CH = "harmonic_inference.data.chord:"
NO = "harmonic_inference.data.note:"
WINDOW = {(TPC, False): (-14, 29), (TPC, True): (-19, 39), (MIDI, False): (0, 12), (MIDI, True): (0, 12)}


def relative_stub(x):
    """Callee contract of absolute_to_relative, proved in C04."""

    def stub(pitch, key_tonic, pitch_type, is_key_change, pad=False):
        if pitch_type == MIDI:
            return (pitch - key_tonic) % 12
        lo, n = (KEY_MIN, KEY_MAX - KEY_MIN) if is_key_change else WINDOW[pitch_type, bool(pad)]
        d = pitch - key_tonic
        if d < lo or d >= lo + n:
            raise ValueError("contract: outside of the window")
        return d - lo

    stub_everywhere(x, "absolute_to_relative", stub)


def one_hot(x, n, i):
    return [x.ite(i == k, 1, 0) for k in range(n)]


def chord_vector_spec(x, pt, pad, root, bass, tonic, mode, t, inv, on, off, dur):
    """The documented layout: root, type, bass, inversion, levels of onset and offset, duration, is major.
    None when root or bass is outside the window."""
    lo, n = WINDOW[pt, bool(pad)]
    r, b = root - tonic, bass - tonic
    if pt == MIDI:
        r, b = r % 12, b % 12
    elif not x.and_(r >= lo, r < lo + n, b >= lo, b < lo + n):
        return None
    return (
        one_hot(x, n, r - lo)
        + one_hot(x, 12, t.value)
        + one_hot(x, n, b - lo)
        + one_hot(x, 4, inv)
        + one_hot(x, 4, on)
        + one_hot(x, 4, off)
        + [dur if x.symbolic else float(dur)]
        + [1 if mode == KeyMode.MAJOR else 0]
    )


def a_chord(x, pt):
    n = NPITCH[pt]
    root, bass, tonic = x.int("root", 0, n), x.int("bass", 0, n), x.int("tonic", 0, n)
    mode, t = x.choice("mode", MODES), x.choice("type", TYPES)
    inv = x.int("inversion", 0, 4)
    on, off = x.int("onset level", 0, 4), x.int("offset level", 0, 4)
    dur = x.real("duration") if x.symbolic else Fraction(x.choice("duration", range(1, 64)), x.choice("per", [1, 3, 4, 16]))
    c = Chord(root, bass, tonic, mode, t, inv, (0, Fraction(0)), on, (1, Fraction(0)), off, dur, pt)
    return c, dict(root=root, bass=bass, tonic=tonic, mode=mode, t=t, inv=inv, on=on, off=off, dur=dur)


@harness([CH + "Chord.to_vec"])
def chord_vector(x):
    """The vector of a chord, for every chord and key: each block says its fact and nothing else; refused
    exactly when root or bass is out of the window around the tonic."""
    relative_stub(x)
    if x.symbolic and x.mode_unroll is None:
        x.replace(chord_mod, "np", VecNp(x), "numpy zeros, indexing and concatenation (documented meaning); float16 rounding left out")
    pt, red = x.choice("pitch type", PITCH_TYPES), x.choice("reduction", [None, 1, 2, 3, 4])
    pad = x.choice("pad", [False, True] if red else [None, True])
    c, f = a_chord(x, pt)
    other = x.choice("relative to another key", [False, True])
    kw = {} if pad is None else {"pad": pad}
    if red is not None:
        kw["reduction"] = REDUCTIONS[red]
        f["t"] = REDUCTIONS[red][f["t"]]
    if other:
        own = f["mode"]
        f["tonic"], f["mode"] = x.int("other tonic", 0, NPITCH[pt]), MODES[1 - MODES.index(own)]
        o1, o2 = x.int("third tonic", 0, NPITCH[pt]), own
        kw["relative_to"] = Key(f["tonic"], o1, o1, f["mode"], o2, o2, pt)
    want = chord_vector_spec(x, pt, pad, **f)
    r = x.call(c.to_vec, **kw)
    if want is None:
        x.check("a chord beyond the window is refused", r.raised(ValueError), repr(r))
        return
    v = x.returns("returns", r)
    same_vector(x, "vector", v, want)


@harness([CH + "get_chord_vector_length", CH + "Chord.get_chord_vector_length", NO + "get_note_vector_length", NO + "Note.get_vector_length"])
def lengths(x):
    """The announced lengths are the lengths of the layouts."""
    pt = x.choice("pitch type", PITCH_TYPES)
    pad = x.choice("pad", [False, True])
    n = x.returns("returns", x.call(get_chord_vector_length, pt, one_hot=False, pad=pad))
    x.check("chord vector length", n == 2 * WINDOW[pt, pad][1] + 12 + 14)
    m = x.returns("note returns", x.call(get_note_vector_length, pt))
    x.check("note vector length", m == NPITCH[pt] + 10 + 4 + 4 + 3 + 2 + 1 + 10 + 2)
    note = Note(3, 4, (0, Fraction(0)), 0, Fraction(1), (1, Fraction(0)), 0, pt)
    x.check("method agrees", x.returns("method returns", x.call(note.get_vector_length)) == m)
    c = Chord(3, 3, 3, MODES[0], TYPES[0], 0, (0, Fraction(0)), 0, (1, Fraction(0)), 0, Fraction(1), pt)
    k = x.returns("chord method returns", x.call(c.get_chord_vector_length, one_hot=False, pad=pad))
    x.check("chord method agrees", k == n)


# ---- notes -------------------------------------------------------------------------------------------
def midi_class(pt, p):
    return p if pt == MIDI else (7 * (p - 15)) % 12


@harness([NO + "Note.get_midi_note_number"])
def midi_number(x):
    """The MIDI note number: twelve per octave plus the sounding pitch class, for either pitch type."""
    pt = x.choice("pitch type", PITCH_TYPES)
    p = x.choice("pitch", range(NPITCH[pt]))
    o = x.int("octave")
    n = Note(p, o, (0, Fraction(0)), 0, Fraction(1), (1, Fraction(0)), 0, pt)
    v = x.returns("returns", x.call(n.get_midi_note_number))
    x.check("note number", v == 12 * o + midi_class(pt, p))


def note_vector_spec(x, pt, p, o, on, off, rhythm, prev, nxt, midi, lowest, highest):
    rel = o - (0 if lowest is None else lowest[0])
    if lowest is not None and highest is not None:
        size = highest[1] - lowest[1]
        size = x.ite(size == 0, 1, size)
        height = (midi - lowest[1]) / size
    else:
        height = 0
    return (
        one_hot(x, NPITCH[pt], p)
        + one_hot(x, 10, o)
        + one_hot(x, 4, on)
        + one_hot(x, 4, off)
        + list(rhythm)
        + [0 if prev is None else prev, 0 if nxt is None else nxt]
        + [0 if lowest is None else x.ite(midi == lowest[1], 1, 0)]
        + one_hot(x, 10, rel)
        + [midi / 127 if not x.symbolic else midi * Fraction(1, 127)]
        + [height]
    )


@harness([NO + "Note.to_vec"])
def note_vector(x):
    """The vector of a note, for every note and setting: pitch, octave, levels, timing relative to the chord,
    distances to its neighbours, whether it is the lowest, octave and height above the lowest."""
    pt = x.choice("pitch type", PITCH_TYPES)
    n = NPITCH[pt]
    p, o = x.int("pitch", 0, n), x.int("octave", 0, 10)
    on, off = x.int("onset level", 0, 4), x.int("offset level", 0, 4)

    def dur(name, lo=None):
        return x.real(name, lo) if x.symbolic else Fraction(x.choice(name, range(1, 40)), x.choice(name + " per", [1, 2, 3, 8]))

    d = dur("duration")
    note = Note(p, o, (3, Fraction(1, 4)), on, d, (4, Fraction(0)), off, pt)
    kw = {}
    timing = x.choice("timing", ["none", "given onset", "computed"])
    rhythm = [0, 0, 0]
    deep = x.symbolic and x.mode_unroll is None
    frame = "measures"
    if timing != "none":
        cd = dur("chord duration")
        if x.symbolic:
            x.assume(x.and_(cd > 0))
        kw.update(chord_onset=(1, Fraction(0)), chord_offset=(9, Fraction(0)), chord_duration=cd, measures_df=frame)
        if timing == "given onset":
            t0 = dur("onset in chord")
            kw["note_onset"] = t0
            rhythm = [t0 / cd, (t0 + d) / cd, d / cd]
        else:
            rhythm = [dur("prop onset"), dur("prop offset"), dur("prop duration")]
            seen = []

            def info(row, range_start, range_end, measures_df, range_len=None):
                ok = (
                    tuple(row[k] for k in ("mc", "mn_onset")) == (3, Fraction(1, 4))
                    and row["duration"] is d
                    and range_start == (1, Fraction(0))
                    and range_end == (9, Fraction(0))
                    and measures_df is frame
                    and range_len is cd
                )
                seen.append(ok)
                return tuple(rhythm)

            if not deep:
                return note_timing(x, note, kw, d)
            x.stub(note_mod, "get_rhythmic_info_as_proportion_of_range", info)
            x.replace(note_mod, "pd", FakePd(), "pandas Series: a labelled row")
    if deep:
        x.replace(note_mod, "np", VecNp(x), "numpy zeros, indexing and concatenation (documented meaning); float16 rounding left out")
        midi = x.int("midi number")
        x.stub(Note, "get_midi_note_number", lambda self: midi)
    else:
        midi = 12 * o + midi_class(pt, p)
    lowest = highest = None
    bounds = x.choice("bounds", ["none", "lowest", "highest", "both"])
    if bounds in ("lowest", "both"):
        lo_o = x.int("lowest octave", 0, 10)
        lowest = (lo_o, x.int("lowest midi", 0, 128))
        x.assume(x.and_(lo_o <= o, lowest[1] <= midi))
        kw["min_pitch"] = lowest
    if bounds in ("highest", "both"):
        highest = (x.int("highest octave", 0, 10), x.int("highest midi", 0, 128))
        x.assume(midi <= highest[1])
        kw["max_pitch"] = highest
    prev, nxt = (dur(nm) if x.choice("has " + nm, [False, True]) else None for nm in ("prev", "next"))
    if prev is not None:
        kw["dur_from_prev"] = prev
    if nxt is not None:
        kw["dur_to_next"] = nxt
    want = note_vector_spec(x, pt, p, o, on, off, rhythm, prev, nxt, midi, lowest, highest)
    if not x.symbolic:
        want = [float(w) for w in want]
    v = x.returns("returns", x.call(note.to_vec, **kw))
    if timing == "computed":
        x.check("the note's position in the chord's range was asked for", seen == [True])
    same_vector(x, "vector", v, want)


class FakePd:
    @staticmethod
    def Series(d):
        return d

    def __getattr__(self, n):
        raise Unsupported("pandas." + n)


def note_timing(x, note, kw, d):
    """Timing computed from real measures: one meter, positions counted from the chord's onset."""
    import pandas as pd

    m = x.choice("measures", range(4, 7))
    df = pd.DataFrame(
        {
            "mc": list(range(m)),
            "timesig": ["4/4"] * m,
            "act_dur": [Fraction(1)] * m,
            "offset": [Fraction(0)] * m,
            "next": list(range(1, m)) + [None],
        }
    )
    a, b = (x.choice("chord bar", range(0, 3)), Fraction(x.choice("chord beat", range(4)), 4)), (3, Fraction(3, 4))
    cd = (b[0] - a[0]) + b[1] - a[1]
    pos = Fraction(3) + Fraction(1, 4) - a[0] - a[1]
    kw = dict(kw, chord_onset=a, chord_offset=b, chord_duration=cd, measures_df=df)
    want = [pos / cd, (pos + d) / cd, d / cd]
    v = x.returns("returns", x.call(note.to_vec, **kw))
    k = NPITCH[note.pitch_type] + 18
    same_vector(x, "timing", v[k : k + 3], [float(w) for w in want])


# ---- the inputs a search state gives to the sequence models ------------------------------------------
BSM = "harmonic_inference.utils.beam_search_utils:State."
import harmonic_inference.utils.beam_search_utils as bs  # noqa: E402
from harmonic_inference.utils.beam_search_utils import State  # noqa: E402

KC_LEN = {TPC: 31, MIDI: 14}


def key_change_spec(x, pt, t0, t1, m1):
    d = t1 - t0
    if pt == MIDI:
        d = d % 12
    else:
        d = d - KEY_MIN
    n = KC_LEN[pt] - 2
    return one_hot(x, n, d) + one_hot(x, 2, MODES.index(m1))


class Scene:
    """A state with a chord, behind it one with any key; labels of one chord and two keys."""

    def __init__(self, x):
        self.x = x
        self.pt = pt = x.choice("pitch type", PITCH_TYPES)
        n = NPITCH[pt]
        self.root, self.t, = x.int("root", 0, n), x.choice("type", TYPES if not x.symbolic else TYPES[4:6])
        if x.symbolic and x.mode_unroll is None:
            self.inv, self.bass = x.int("inversion", 0, 4), x.int("bass", 0, n)
            mine = (self.t, self.root, self.inv, pt)

            def bass_note(chord_type, root, inversion, pitch_type, modulo=False):
                if any(a is not b for a, b in zip(mine, (chord_type, root, inversion, pitch_type))):
                    raise Unsupported("bass of another chord")
                return self.bass

            x.stub(bs.hu, "get_bass_note", bass_note)
        else:
            self.inv = x.choice("inversion", range(len(CONTENT[self.t])))
            self.bass = self.root + tones(self.t, pt)[self.inv]
            if pt == MIDI:
                self.bass = self.bass % 12
            else:
                x.assume(x.and_(self.bass >= 0, self.bass < 35))
        self.keys = [(x.int(f"tonic {i}", 0, n), x.choice(f"mode {i}", MODES)) for i in range(2)]
        self.labels = {"chord": {7: (self.root, self.t, self.inv)}, "key": {3: self.keys[0], 4: self.keys[1]}}
        self.changed = x.choice("key change", [False, True])
        self.first = x.choice("first chord", [False, True])
        self.levels = [x.int(f"level {i}", 0, 4) for i in range(4)]
        self.durs = [x.real(f"dur {i}") if x.symbolic else Fraction(x.choice(f"dur {i}", range(0, 9)), 4) for i in range(3)]
        a = 0 if self.first else 1
        self.span = (a, 3)
        if self.first:
            p = State(key=3)
        else:
            p = State(key=3, chord=7, change_index=1, prev_state=State(key=3))
        k = 4 if self.changed else 3
        self.state = State(key=k, chord=7, change_index=3, prev_state=p)
        self.key = self.keys[1 if self.changed else 0]

    def args(self):
        return (
            self.pt,
            np.array(self.durs, dtype=object),
            [(i, Fraction(0)) for i in range(4)],
            list(self.levels),
            self.labels,
        )

    def want(self, pad):
        x = self.x
        a, b = self.span
        total = 0
        for v in self.durs[a:b]:
            total = total + v
        v = chord_vector_spec(
            x, self.pt, pad, self.root, self.bass, self.key[0], self.key[1], self.t, self.inv, self.levels[a], self.levels[b], total
        )
        if v is None:
            return None
        if self.changed:
            return v + key_change_spec(x, self.pt, self.keys[0][0], *self.key) + [1]
        return v + [0] * (KC_LEN[self.pt] + 1)


@harness([BSM + "get_csm_input", BSM + "get_ktm_input"], samples=150)
def step_inputs(x):
    """What the chord-sequence and key-transition models read for one step: the chord in the state's key (padded
    window for the latter), the change from the previous key, and whether there is one."""
    S = Scene(x)
    relative_stub(x)
    if x.symbolic and x.mode_unroll is None:
        np_ = VecNp(x)
        for m in (chord_mod, key_mod, bs):
            x.replace(m, "np", StepNp(x) if m is bs else np_, "numpy zeros, indexing and concatenation (documented meaning); float16 rounding left out")
    which = x.choice("model", ["csm", "ktm"])
    want = S.want(which == "ktm")
    f = S.state.get_csm_input if which == "csm" else S.state.get_ktm_input
    r = x.call(f, *S.args())
    if want is None:
        x.check("a chord beyond the window is refused", r.raised(ValueError), repr(r))
        return
    v = x.returns("returns", r)
    x.check("one step", tuple(v.shape) == (1, len(want)))
    same_vector(x, "input", v[0], want)


class StepNp(VecNp):
    def sum(self, a, *r, **k):
        t = 0
        for v in a:
            t = t + v
        return t


class Mem:
    """A model memory (stands for a tensor): equal or not."""

    def __init__(self, v):
        self.v = v

    def equal(self, o):
        return self.v == o.v


class Matrix:
    """A matrix of any number of rows, each row known by name only."""

    def __init__(self, x, n, row):
        self.x, self.n, self.row = x, n, row

    def vc_len(self):
        return self.n

    @property
    def shape(self):
        return (self.n, 5)

    def _ix(self, i):
        if i >= self.n or i < -self.n:
            raise IndexError("row")
        return i + self.n if i < 0 else i

    def __getitem__(self, i):
        return self.row(self._ix(i))

    def __setitem__(self, i, v):
        i, x, old = self._ix(i), self.x, self.row
        self.row = lambda k: x.ite(k == i, v, old(k))

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported("matrix." + n)


class KsmNp:
    def __init__(self, x):
        self.x = x

    def __getattr__(self, n):
        raise Unsupported("numpy." + n)

    def squeeze(self, a):
        return a.row

    def zeros(self, shape):
        n, m = shape
        return Matrix(self.x, n, lambda k: 0)


class Token:
    def __init__(self, row):
        self.row = row


class RowV(int):
    """A row that is told apart from others by its number."""

    def __len__(self):
        return 5

    def vc_len(self):
        return 5


@harness([BSM + "get_ksm_input"], samples=150)
def key_inputs(x):
    """What the key-sequence model reads at a key change: one row per step since it last ran (at any distance),
    oldest first, ending with this step."""
    if not x.symbolic or x.mode_unroll is not None:
        return key_inputs_chain(x)
    length = x.int("rows to add", 0)
    chain = x.choice("chain", ["none", "first", "second", "longer"])
    own = RowV(77)
    mem = lambda n: x.choice(n, [None, (Mem(1), Mem(1)), (Mem(1), Mem(2)), (Mem(2), Mem(1))])  # noqa: E731
    s = State(key=3, chord=7, change_index=9)
    n = x.int("rows before", 1)
    before = lambda k: x.ufun("row", "Int", k)  # noqa: E731
    fresh = chain in ("none", "first")
    if chain != "none":
        s.prev_state = p = State(key=3, chord=7, change_index=8, ksm_hidden_state=mem("memory 1"))
        if chain != "first":
            p.prev_state = State(key=3, change_index=5, ksm_hidden_state=mem("memory 0"))
            a, b = p.ksm_hidden_state, p.prev_state.ksm_hidden_state
            fresh = (a is None) != (b is None) or (a is not None and (a[0].v, a[1].v) != (b[0].v, b[1].v))
            p.get_ktm_input = lambda *r: Token(None)

            def get_ksm_input(pt, d, o, ol, lb, length=0):
                x.check("room for the later rows", length == asked + 1)
                x.check("same piece", (pt, d, o, ol, lb) == ARGS)
                return Matrix(x, n + length, lambda k: x.ite(k < n, before(k), 0))

            asked = length
            p.get_ksm_input = get_ksm_input
    s.get_ktm_input = lambda *r, **k: Token(own)
    x.replace(bs, "np", KsmNp(x), "numpy zeros, squeeze, row assignment (documented meaning)")
    ARGS = (TPC, "durations", "onsets", "levels", "labels")
    r = x.returns("returns", x.call(s.get_ksm_input, *ARGS, length=length))
    if not isinstance(r, Matrix):
        raise Unsupported("result")
    k = 0 if fresh else n
    x.check("one row per step and the ones to add", r.n == k + 1 + length)
    g = x.fresh_int("row")
    x.assume(x.and_(g >= 0, g < r.n))
    want = x.ite(g == k, own, x.ite(g < k, before(g), 0)) if not fresh else x.ite(g == 0, own, 0)
    x.check("rows in order", r.row(g) == want)


def key_inputs_chain(x):
    pt = x.choice("pitch type", PITCH_TYPES)
    steps = x.choice("steps", [1, 2, 3, 5])
    n = NPITCH[pt]
    labels = {"chord": {}, "key": {}}
    t = TYPES[0]
    states = [State(key=50, change_index=0, ksm_hidden_state=x.choice("start memory", [None, (Mem(0), Mem(0))]))]
    labels["key"][50] = (n // 2, MODES[0])
    mems = []
    for i in range(steps):
        root = x.choice(f"root {i}", range(n // 2 - 1, n // 2 + 2))
        labels["chord"][i] = (root, t, 0)
        same = x.choice(f"ran {i}", [False, False, True])
        m = states[-1].ksm_hidden_state
        if same:
            part = x.choice(f"part {i}", [0, 1])
            old = (Mem(0), Mem(0)) if m is None else m
            m = (Mem(old[0].v + (part == 0)), Mem(old[1].v + (part == 1)))
        elif m is not None:
            m = (Mem(m[0].v), Mem(m[1].v))
        mems.append(same)
        states.append(State(key=50, chord=i, change_index=i + 1, prev_state=states[-1], ksm_hidden_state=m))
    durs = [Fraction(i + 1, 4) for i in range(steps)]
    args = (pt, np.array(durs), [(i, Fraction(0)) for i in range(steps + 1)], [i % 4 for i in range(steps + 1)], labels)
    r = x.returns("returns", x.call(states[-1].get_ksm_input, *args))
    # back to the last state at which the model ran (before the latest)
    first = steps
    while first > 1 and not mems[first - 2]:
        first -= 1
    rows = states[first:]
    x.check("one row per step since the model last ran", len(r) == len(rows))
    for s, v in zip(rows, r):
        i = s.chord
        root = labels["chord"][i][0]
        want = chord_vector_spec(
            x, pt, True, root, root, n // 2, MODES[0], t, 0, i % 4, (i + 1) % 4, durs[i]
        ) + [0] * (KC_LEN[pt] + 1)
        same_vector(x, "row", v, want)
