"""C13: rewriting encodings: chord type reductions, dropped inversions, transposed notes, reading vectors back."""
from common import *
from fractions import Fraction
import contextlib
import io
import numpy as np
from c02 import INV, index_spec
from c12 import WINDOW, KC_LEN, midi_class
import harmonic_inference.data.vector_decoding as vd
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.key import Key
from harmonic_inference.data.note import Note

VD = "harmonic_inference.data.vector_decoding:"


def settings(x):
    pt, pad = x.choice("pitch type", PITCH_TYPES), x.choice("pad", [False, True])
    n = WINDOW[pt, pad][1]
    kw = {"pitch_type": pt} if x.choice("pitch type given", [True, False]) else {}
    return pt, pad, n, 2 * n + 26, kw


@harness([VD + "infer_chord_vector_pitch_type", VD + "get_chord_vector_inversion_index", VD + "get_chord_vector_chord_type_index"])
def positions(x):
    """Where the type and the inversion are in a chord vector; the pitch type is told from its length, and a
    length that is neither is a ValueError."""
    pt, pad, n, length, kw = settings(x)
    x.check("pitch type", x.returns("returns", x.call(vd.infer_chord_vector_pitch_type, length, pad)) == pt)
    i = x.returns("type index returns", x.call(vd.get_chord_vector_chord_type_index, length, pad, **kw))
    x.check("types come after the root", i == n)
    i = x.returns("inversion index returns", x.call(vd.get_chord_vector_inversion_index, length, pad, **kw))
    x.check("inversions come after root, type and bass", i == 2 * n + 12)
    m = x.int("length", 0)
    sizes = {2 * WINDOW[p, pad][1] + 26 for p in PITCH_TYPES}
    r = x.call(vd.infer_chord_vector_pitch_type, m, pad)
    if r.ok:
        x.check("only known lengths", x.or_(*[m == s for s in sizes]))
    else:
        x.check("other lengths are a ValueError", r.raised(ValueError), repr(r))
        x.check("refused only then", x.and_(*[x.not_(m == s) for s in sizes]))


def cells(x, rows, cols):
    t = np.empty((rows, cols), dtype=object)
    for i in range(rows):
        for j in range(cols):
            t[i, j] = x.real(f"cell {i} {j}") if x.symbolic else float(x.choice(f"cell {i} {j}", range(0, 9)))
    return t


def extra_columns(x, length):
    """Key-change columns may follow the chord vector: then the pitch type has to be given."""
    return length


@harness([VD + "remove_chord_inversions"], samples=60)
def no_inversions(x):
    """Dropping inversions: each row's inversion mass moves to root position, nothing else changes (any values)."""
    pt, pad, n, length, kw = settings(x)
    more = x.choice("more columns", [0, 3]) if kw else 0
    rows = x.choice("rows", [1, 2])
    t = cells(x, rows, length + more)
    if not x.symbolic:
        t = t.astype(x.choice("type", [np.float16, float]))
    old = t.copy()
    x.returns("returns", x.call(vd.remove_chord_inversions, t, pad, **kw))
    a = 2 * n + 12
    ok = []
    for i in range(rows):
        ok.append(t[i, a] == old[i, a] + old[i, a + 1] + old[i, a + 2] + old[i, a + 3])
        ok += [t[i, j] == 0 for j in range(a + 1, a + 4)]
        x.check("inversions", x.and_(*ok))
        x.check("the rest is untouched", x.and_(*[t[i, j] == old[i, j] for j in range(length + more) if not a <= j < a + 4]))


@harness([VD + "reduce_chord_types"], samples=60)
def types_reduced(x):
    """Reducing chord types: each row's type becomes its reduction (also where the reduction keeps it), rows
    without a type stay without one, nothing else changes."""
    pt, pad, n, length, kw = settings(x)
    more = x.choice("more columns", [0, 3]) if kw else 0
    red = x.choice("reduction", [0, 1, 2, 3, 4])
    t = cells(x, 13, length + more) if not x.symbolic else np.full((13, length + more), 0, dtype=object)
    if x.symbolic:
        for i in range(13):
            for j in list(range(3)) + list(range(n - 2, n)) + list(range(n + 12, n + 14)) + [length - 1, length + more - 1]:
                t[i, j] = x.real(f"cell {i} {j}")
    for i in range(13):
        t[i, n : n + 12] = [1 if k == i else 0 for k in range(12)]
    if not x.symbolic:
        t = t.astype(x.choice("type", [np.float16, float]))
    old = t.copy()
    x.returns("returns", x.call(vd.reduce_chord_types, t, REDUCTIONS[red], pad, **kw))
    for i in range(13):
        to = None if i == 12 else i if not red else REDUCTIONS[red][TYPES[i]].value
        got = list(t[i, n : n + 12])
        x.check("type", x.and_(*[g == (1 if k == to else 0) for k, g in enumerate(got)]), f"type {i}: {got}")
        x.check("the rest is untouched", x.and_(*[t[i, j] == old[i, j] for j in range(length + more) if not n <= j < n + 12]))


@harness([VD + "reduce_chord_one_hots"], samples=100, budget=200)
def indexes_reduced(x):
    """Reducing chord indexes, for every index of every vocabulary: the index of the chord's reduced type (and of
    root position where inversions are dropped) in the smaller vocabulary; elementwise, kind of number kept.
    An inversion that the reduced chord does not have is a ValueError."""
    pt, pad = x.choice("pitch type", PITCH_TYPES), x.choice("pad", [False, True])
    rel = x.choice("relative", [True, False])
    inv0, inv1 = x.choice("inversions present", [True, False]), x.choice("inversions kept", [True, False])
    red0, red1 = REDUCTIONS[x.choice("reduction present", range(len(REDUCTIONS)))], REDUCTIONS[x.choice("reduction", range(len(REDUCTIONS)))]
    old = hu.get_chord_from_one_hot_index(slice(None), pt, use_inversions=inv0, relative=rel, pad=pad, reduction=red0)
    lost = lambda c: inv1 and c[2] >= INV[c[1] if red1 is None else red1[c[1]]]  # noqa: E731
    keep, without = [i for i, c in enumerate(old) if not lost(c)], [i for i, c in enumerate(old) if lost(c)]
    if without and x.choice("an inversion the reduced chord does not have", [False, True]):
        r = x.call(
            vd.reduce_chord_one_hots, [x.choice("which", without[:: 1 + len(without) // 20])], pad, pt, inv0, red0, rel, red1, inv1
        )
        x.check("is refused", r.raised(ValueError), repr(r))
        return
    ids = keep
    form = x.choice("form", ["list", "int", "float"]) if red1 is None or not x.symbolic else "int"
    if not x.symbolic:
        k = x.choice("take", [1, 2, 7, len(ids)])
        ids = [ids[(i * 37 + x.choice("from", range(50)) * (i % 3)) % len(ids)] for i in range(k)]
    given = ids if form == "list" else np.array(ids, dtype=np.int64 if form == "int" else np.float64)
    r = x.returns(
        "returns",
        x.call(
            vd.reduce_chord_one_hots,
            given,
            pad,
            pt,
            inversions_present=inv0,
            reduction_present=red0,
            relative=rel,
            reduction=red1,
            use_inversions=inv1,
        ),
    )
    x.check("one index each", len(r) == len(ids))
    x.check("kind of number", form == "list" or r.dtype == given.dtype)
    new = hu.get_chord_from_one_hot_index(slice(None), pt, use_inversions=inv1, relative=rel, pad=pad, reduction=red1)
    bad = []
    for i, v in zip(ids, r):
        root, t, inv = old[i]
        t2 = t if red1 is None else red1[t]
        if not 0 <= int(v) < len(new):
            bad.append((old[i], v))
            continue
        root2, t3, inv2 = new[int(v)]
        want = inv if inv1 else 0
        if root2 != root or t3 != t2 or (inv2 != want):
            bad.append((old[i], new[int(v)]))
    x.check("the reduced chord", not bad, str(bad[:3]))
    x.check("the given indexes are unchanged", list(given) == ids)


@harness([VD + "transpose_note_vector"])
def note_transposed(x):
    """Transposing a note vector moves its pitch by the interval (MIDI around the octave), refuses tonal pitches
    beyond the range with a ValueError, changes nothing else and leaves the given vector alone."""
    pt = x.choice("pitch type", PITCH_TYPES)
    n = NPITCH[pt]
    p = x.choice("pitch", range(n))
    iv = x.int("interval")
    if pt == TPC and x.symbolic:
        pass
    kw = {"pitch_type": pt} if x.choice("pitch type given", [True, False]) else {}
    v = np.zeros(n + 36, dtype=np.float16)
    v[p] = 1
    v[n:] = [(3 * i) % 5 for i in range(36)]
    old = v.copy()
    r = x.call(vd.transpose_note_vector, v, iv, **kw)
    x.check("the given vector is unchanged", bool((v == old).all()))
    q = p + iv
    if pt == MIDI:
        q = q % 12
    if not x.and_(q >= 0, q < n):
        x.check("refused", r.raised(ValueError), repr(r))
        return
    w = x.returns("returns", r)
    x.check("length", len(w) == len(v))
    x.check("pitch", x.and_(*[int(w[k]) == x.ite(q == k, 1, 0) for k in range(n)]))
    x.check("the rest is untouched", bool((w[n:] == old[n:]).all()))


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


@harness(
    [VD + "decode_chord_vector", VD + "decode_key_change_vector", VD + "decode_chord_and_key_change_vector"],
    kind="bounded",
    bound="random chords and keys (300 per run)",
    symbolic=False,
)
def read_back(x):
    """Reading back the vector of a chord and key change gives that chord relative to its key, and that change."""
    pt, pad = x.choice("pitch type", PITCH_TYPES), x.choice("pad", [False, True])
    n = NPITCH[pt]
    tonic = x.int("tonic", 0, n)
    lo, w = WINDOW[pt, pad]
    dr, db = x.int("root", 0, n), x.int("bass", 0, n)
    rel = [(v - tonic) % 12 if pt == MIDI else v - tonic for v in (dr, db)]
    x.assume(all(lo <= v < lo + w for v in rel))
    t, inv, mode = x.choice("type", TYPES), x.choice("inversion", range(4)), x.choice("mode", MODES)
    on, off = x.choice("on", range(4)), x.choice("off", range(4))
    dur = Fraction(x.choice("dur", range(1, 9)), 4)
    c = Chord(dr, db, tonic, mode, t, inv, (0, Fraction(0)), on, (1, Fraction(0)), off, dur, pt)
    k2, m2 = x.int("new tonic", 0, n), x.choice("new mode", MODES)
    d = (k2 - tonic) % 12 if pt == MIDI else k2 - tonic
    x.assume(pt == MIDI or KEY_MIN <= d < KEY_MAX)
    v = c.to_vec(pad=pad)
    kv = Key(tonic, tonic, tonic, mode, mode, mode, pt).get_key_change_vector(Key(k2, k2, k2, m2, m2, m2, pt))
    with quiet():
        kw = {"pitch_type": pt} if x.choice("given", [True, False]) else {}
        got = x.returns("chord returns", x.call(vd.decode_chord_vector, v, pad=pad, **kw))
        key = x.returns("key returns", x.call(vd.decode_key_change_vector, kv))
        change = x.choice("change", [True, False])
        both = np.concatenate([v, kv if change else np.zeros(len(kv)), [1 if change else 0]])
        tk = x.choice("told", [{"root_type": pt}, {"tonic_type": pt}, {"root_type": pt, "tonic_type": pt}])
        got2, key2 = x.returns("both return", x.call(vd.decode_chord_and_key_change_vector, both, pad=pad, **tk))
        r = x.call(vd.decode_chord_and_key_change_vector, both, pad=pad)
        x.check("a pitch type is needed", r.raised(ValueError), repr(r))
        bad = np.concatenate([v, kv, [0]])
        r = x.call(vd.decode_chord_and_key_change_vector, bad, pad=pad, **tk)
        x.check("a key change vector without a key change is refused", r.raised(ValueError), repr(r))
    for g in (got, got2):
        facts = (g.root, g.bass, g.chord_type, g.inversion, g.onset_level, g.offset_level, g.key_mode, g.pitch_type)
        x.check("chord", facts == (*rel, t, inv, on, off, mode, pt), str(facts))
    x.check("key change", (key.relative_tonic, key.relative_mode, key.tonic_type) == (d, m2, pt), str(key))
    x.check("key change read together", (key2 is None) == (not change))
    if change:
        x.check("same key change", (key2.relative_tonic, key2.relative_mode) == (d, m2))


@harness([VD + "decode_note_vector"], kind="bounded", bound="random notes (300 per run)", symbolic=False)
def note_read_back(x):
    """Reading back a note vector gives the note's pitch, octave, levels and length in the chord."""
    pt = x.choice("pitch type", PITCH_TYPES)
    p, o = x.int("pitch", 0, NPITCH[pt]), x.choice("octave", range(10))
    on, off = x.choice("on", range(4)), x.choice("off", range(4))
    d, cd = Fraction(x.choice("dur", range(1, 9)), 4), Fraction(2)
    note = Note(p, o, (0, Fraction(0)), on, d, (1, Fraction(0)), off, pt)
    v = note.to_vec(
        chord_onset=(0, Fraction(0)), chord_offset=(2, Fraction(0)), chord_duration=cd, measures_df=1, note_onset=Fraction(x.choice("at", range(4)), 4)
    )
    with quiet():
        g = x.returns("returns", x.call(vd.decode_note_vector, v))
    x.check("note", (g.pitch_class, g.octave, g.onset_level, g.offset_level, g.pitch_type) == (p, o, on, off, pt), str(g))
    x.check("length in the chord", g.duration == float(d / cd))
    r = x.call(vd.decode_note_vector, np.zeros(x.choice("wrong length", [1, 30, 70, 72])))
    x.check("another length is a ValueError", r.raised(ValueError), repr(r))
