"""C07: what a chord consists of: its tones, bass note, pitch vector and transposition."""
from common import *
import numpy as np

# intervals above the root, as (fifths, semitones)
M3, m3, P5, d5, A5, M7, m7, d7 = (4, 4), (-3, 3), (1, 7), (-6, 6), (8, 8), (5, 11), (-2, 10), (-9, 9)
U = (0, 0)
CONTENT = dict(
    zip(
        TYPES,
        [
            [U, M3, P5],
            [U, m3, P5],
            [U, m3, d5],
            [U, M3, A5],
            [U, M3, P5, M7],
            [U, M3, P5, m7],
            [U, m3, P5, M7],
            [U, m3, P5, m7],
            [U, m3, d5, d7],
            [U, m3, d5, m7],
            [U, M3, A5, m7],
            [U, M3, A5, M7],
        ],
    )
)


def tones(t, pt):
    return [iv[0 if pt == TPC else 1] for iv in CONTENT[t]]


@harness([HU + "get_bass_note"])
def bass_contract(x):
    """The bass of inversion i is the i-th tone above the root; ValueError exactly when it leaves the TPC
    range; with modulo any inversion number wraps around the chord size."""
    transpose_pitch_contract(x)
    pt, t = x.choice("pitch_type", PITCH_TYPES), x.choice("type", TYPES)
    modulo = x.choice("modulo", [False, True])
    root = x.int("root")
    n = len(CONTENT[t])
    if modulo:
        inv = x.int("inversion")
        i = inv % n
    else:
        inv = i = x.int("inversion", 0, n)
    r = x.call(hu.get_bass_note, t, root, inv, pt, modulo=modulo)
    iv = tones(t, pt)[i]
    if pt == MIDI:
        v = x.returns("MIDI returns", r)
        x.check("MIDI bass", x.and_(v >= 0, v < 12, (v - root - iv) % 12 == 0))
    elif r.ok:
        x.check("bass", r.value == root + iv)
        x.check("bass in range", x.and_(r.value >= 0, r.value < 35))
    else:
        x.check("refusal is a ValueError", r.raised(ValueError), repr(r))
        x.check("refused only outside the range", x.or_(root + iv < 0, root + iv >= 35))


@harness([HU + "get_bass_note"])
def bass_refuses(x):
    """An inversion number beyond the chord's tones is an error, never another note."""
    pt, t = x.choice("pitch_type", PITCH_TYPES), x.choice("type", TYPES)
    root = x.int("root", 0, NPITCH[pt])
    r = x.call(hu.get_bass_note, t, root, len(CONTENT[t]) + x.choice("more", [0, 1, 5]), pt)
    x.check("raises", not r.ok)


@harness([HU + "get_chord_inversion_count"])
def inversion_count(x):
    """A chord has exactly one inversion per tone."""
    t = x.choice("type", TYPES)
    r = x.returns("returns", x.call(hu.get_chord_inversion_count, t))
    x.check("count", r == len(CONTENT[t]))


FIG = {"": 0, None: 0, "7": 0, "6": 1, "65": 1, "43": 2, "64": 2, "2": 3}


@harness([HU + "get_chord_inversion"])
def figured_bass(x):
    """Figured bass gives the inversion; empty or missing is root position; anything else a ValueError."""
    kind = x.choice("kind", ["known", "nan", "unknown"])
    if kind == "known":
        f = x.choice("figure", list(FIG))
        r = x.returns("returns", x.call(hu.get_chord_inversion, f))
        x.check("inversion", r == FIG[f])
    elif kind == "nan":
        r = x.returns("nan returns", x.call(hu.get_chord_inversion, float("nan")))
        x.check("nan is root position", r == 0)
    else:
        f = x.choice("bad", ["5", "9", "42", "653", "V", " ", "0"])
        r = x.call(hu.get_chord_inversion, f)
        x.check("unknown figure is a ValueError", r.raised(ValueError), repr(r))


SYMBOLS = ["M", "m", "o", "+", "MM7", "Mm7", "mM7", "mm7", "o7", "%7", "+7", "+M7"]


@harness([HU + "get_chord_type_from_string", HU + "get_chord_string"])
def type_symbols(x):
    """Chord type symbols and types correspond one to one; augmented sixth names map to their types;
    anything else is a ValueError."""
    kind = x.choice("kind", ["type", "sixth", "unknown"])
    if kind == "type":
        i = x.choice("type", range(12))
        s = x.returns("symbol returns", x.call(hu.get_chord_string, TYPES[i]))
        x.check("symbol", s == SYMBOLS[i])
        t = x.returns("type returns", x.call(hu.get_chord_type_from_string, s))
        x.check("type", t == TYPES[i])
    elif kind == "sixth":
        i = x.choice("name", ["It", "Ger", "Fr"])
        t = x.returns("sixth returns", x.call(hu.get_chord_type_from_string, i))
        x.check("sixth type", t == {"It": TYPES[2], "Ger": TYPES[8], "Fr": TYPES[5]}[i])
    else:
        r = x.call(hu.get_chord_type_from_string, x.choice("bad", ["", "maj", "M7", "dim", "7", "++"]))
        x.check("unknown symbol is a ValueError", r.raised(ValueError), repr(r))


@harness([HU + "get_vector_from_chord_type"])
def vector_contract(x):
    """The pitch vector holds a 1 exactly at the chord's tones (TPC tones outside the range dropped)."""
    pt, t = x.choice("pitch_type", PITCH_TYPES), x.choice("type", TYPES)
    root = x.choice("root", [None] + list(range(NPITCH[pt])))
    a = (t, pt) if root is None else (t, pt, root)
    v = x.returns("returns", x.call(hu.get_vector_from_chord_type, *a))
    r0 = C[pt] if root is None else root
    want = [0] * NPITCH[pt]
    for iv in tones(t, pt):
        p = r0 + iv
        if pt == MIDI:
            want[p % 12] = 1
        elif 0 <= p < 35:
            want[p] = 1
    x.check("vector", [int(e) for e in v] == want)
    w = x.returns("again", x.call(hu.get_vector_from_chord_type, *a))
    x.check("same on a second call", [int(e) for e in w] == want)


@harness([HU + "transpose_chord_vector"], np_object=True)
def transpose_vector(x):
    """Transposing any vector (arbitrary entries) by any interval: MIDI rotates, TPC shifts and drops; the
    given vector is left alone."""
    pt = x.choice("pitch_type", PITCH_TYPES)
    n = NPITCH[pt]
    k = x.choice("interval", range(-40, 41))
    vals = [x.int(f"v{i}") for i in range(n)]
    vec = np.array(vals, dtype=object if x.symbolic else int)
    r = x.returns("returns", x.call(hu.transpose_chord_vector, vec, k, pt))
    x.check("length", len(r) == n)
    for i in range(n):
        j = i - k
        src = vals[j % 12] if pt == MIDI else (vals[j] if 0 <= j < n else 0)
        x.check("entry", r[i] == src)
        x.check("argument unchanged", vec[i] is vals[i] if x.symbolic else vec[i] == vals[i])


@harness([HU + "tpc_interval_to_midi_interval", HU + "get_bass_note"])
def representations_agree(x):
    """The TPC and MIDI content of every chord type name the same sounding intervals."""
    t = x.choice("type", TYPES)
    i = x.choice("tone", range(len(CONTENT[t])))
    a = x.returns("tpc", x.call(hu.get_bass_note, t, 15, i, TPC)) - 15
    b = x.returns("midi", x.call(hu.get_bass_note, t, 0, i, MIDI))
    m = x.returns("converts", x.call(hu.tpc_interval_to_midi_interval, a))
    x.check("same semitones", m == b)
