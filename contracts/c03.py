"""C03: the key vocabulary and the key-change vocabulary."""
from common import *
from harmonic_inference.data.key import Key, get_key_change_vector_length
import harmonic_inference.data.key as key_mod

KEY = "harmonic_inference.data.key:"
NREL = {TPC: 29, MIDI: 12}


def relative_contract(x):
    def stub(pitch, key_tonic, pitch_type, is_key_change, pad=False):
        if pitch_type == MIDI:
            return (pitch - key_tonic) % 12
        lo, hi = (KEY_MIN, KEY_MAX) if is_key_change else (REL_MIN, REL_MAX)
        if pad and not is_key_change:
            lo, hi = lo - REL_PAD, hi + REL_PAD
        d = pitch - key_tonic
        if d < lo or d >= hi:
            raise ValueError("contract: outside of the relative window")
        return d - lo

    stub_everywhere(x, "absolute_to_relative", stub)


def key_index_contract(x):
    def stub(key_mode, tonic, pitch_type):
        if tonic < 0 or tonic >= NPITCH[pitch_type]:
            raise ValueError("contract: tonic outside of range")
        return NPITCH[pitch_type] * key_mode.value + tonic

    stub_everywhere(x, "get_key_one_hot_index", stub)


@harness([HU + "get_key_one_hot_index"])
def encode_contract(x):
    """Index of a key: majors first, then minors, each in tonic order; ValueError exactly outside the range."""
    pt, mode = x.choice("pitch_type", PITCH_TYPES), x.choice("mode", MODES)
    t = x.int("tonic")
    r = x.call(hu.get_key_one_hot_index, mode, t, pt)
    inside = x.and_(t >= 0, t < NPITCH[pt])
    if r.ok:
        x.check("accepted only in range", inside)
        x.check("index", r.value == (0 if mode == KeyMode.MAJOR else NPITCH[pt]) + t)
        x.check("index within the vocabulary", x.and_(r.value >= 0, r.value < 2 * NPITCH[pt]))
    else:
        x.check("refusal is a ValueError", r.raised(ValueError), repr(r))
        x.check("refused only out of range", x.not_(inside))


@harness([HU + "get_key_from_one_hot_index"])
def decode_contract(x):
    """Decoding every index of the (absolute or relative) vocabulary; slices give the whole vocabulary."""
    pt = x.choice("pitch_type", PITCH_TYPES)
    rel = x.choice("relative", [False, True])
    n = NREL[pt] if rel else NPITCH[pt]
    lo = KEY_MIN if rel and pt == TPC else 0
    i = x.int("index", 0, 2 * n)
    tonic, mode = x.returns("returns", x.call(hu.get_key_from_one_hot_index, i, pt, relative=rel))
    x.check("tonic", tonic == i % n + lo)
    x.check("mode", (mode == KeyMode.MINOR) == bool(i >= n))
    if x.choice("whole", [True, False]):
        allv = x.returns("slice returns", x.call(hu.get_key_from_one_hot_index, slice(None), pt, relative=rel))
        x.check("vocabulary size", len(allv) == 2 * n)
        x.check("slice agrees", allv[i][0] == tonic and allv[i][1] == mode)


@harness([HU + "get_key_one_hot_index", HU + "get_key_from_one_hot_index"])
def key_bijection(x):
    """encode and decode are inverse on the absolute vocabulary."""
    pt, mode = x.choice("pitch_type", PITCH_TYPES), x.choice("mode", MODES)
    t = x.int("tonic", 0, NPITCH[pt])
    i = x.returns("encode returns", x.call(hu.get_key_one_hot_index, mode, t, pt))
    t2, m2 = x.returns("decode returns", x.call(hu.get_key_from_one_hot_index, i, pt))
    x.check("decode(encode(key)) is the key", x.and_(t2 == t, m2 == mode))


@harness([HU + "get_key_label_list"])
def key_labels(x):
    """One distinct label per index: the tonic's name (lower case in minor) and the mode."""
    pt = x.choice("pitch_type", PITCH_TYPES)
    rel = x.choice("relative", [False, True])
    n = NREL[pt] if rel else NPITCH[pt]
    lo = KEY_MIN if rel and pt == TPC else 0
    to = x.choice("relative_to", [None] + list(range(NPITCH[pt]))) if rel else None
    labels = x.returns("returns", x.call(hu.get_key_label_list, pt, relative=rel, relative_to=to))
    x.check("one label per key", len(labels) == 2 * n)
    x.check("labels are distinct", len(set(labels)) == 2 * n)
    i = x.choice("index", range(2 * n))
    t, m = i % n + lo, MODES[i // n]
    if not rel:
        name = hu.get_pitch_string(t, pt)
    elif to is None:
        name = str(t)
    else:
        try:
            name = hu.get_pitch_string(hu.transpose_pitch(t, to, pt), pt)
        except ValueError:
            name = str(t)
    if m == KeyMode.MINOR:
        name = name.lower()
    x.check("label names the key", labels[i] == f"{name}:{m}")
    if not rel:
        x.check("absolute by default", list(x.returns("short", x.call(hu.get_key_label_list, pt))) == list(labels))
        k = x.returns("key by default", x.call(hu.get_key_from_one_hot_index, i, pt))
        x.check("absolute key by default", tuple(k) == (t, m))
    elif to is None:
        short = x.returns("numbers by default", x.call(hu.get_key_label_list, pt, relative=True))
        x.check("interval numbers by default", list(short) == list(labels))


def a_key(x, pt, tag):
    t = x.int("tonic" + tag)
    m = x.choice("mode" + tag, MODES)
    lt, gt = x.int("local" + tag), x.int("global" + tag)
    lm, gm = x.choice("lmode" + tag, MODES), MODES[0]
    return t, m, Key(t, lt, gt, m, lm, gm, pt)


@harness([KEY + "Key.get_one_hot_index"])
def key_object_index(x):
    """A key object's index is that of its (applied) tonic and mode."""
    key_index_contract(x)
    pt = x.choice("pitch_type", PITCH_TYPES)
    t, m, k = a_key(x, pt, "")
    r = x.call(k.get_one_hot_index)
    inside = x.and_(t >= 0, t < NPITCH[pt])
    if r.ok:
        x.check("index of tonic and mode", r.value == NPITCH[pt] * (1 if m == KeyMode.MINOR else 0) + t)
        x.check("accepted only in range", inside)
    else:
        x.check("refusal is a ValueError", r.raised(ValueError), repr(r))
        x.check("refused only out of range", x.not_(inside))


@harness([KEY + "Key.get_key_change_one_hot_index"])
def key_change_index(x):
    """Key-change index: mode of the next key and interval between the tonics; decodes to exactly that."""
    relative_contract(x)
    pt = x.choice("pitch_type", PITCH_TYPES)
    t1, m1, a = a_key(x, pt, "1")
    t2, m2, b = a_key(x, pt, "2")
    r = x.call(a.get_key_change_one_hot_index, b)
    d = t2 - t1
    if pt == MIDI:
        v = x.returns("MIDI key change returns", r)
        x.check("mode block", x.and_(v >= 12 * m2.value, v < 12 * (m2.value + 1)))
        x.check("interval", (v - d) % 12 == 0)
    elif r.ok:
        x.check("interval inside the window", x.and_(d >= KEY_MIN, d < KEY_MAX))
        x.check("index", r.value == 29 * m2.value + d - KEY_MIN)
    else:
        x.check("refusal is a ValueError", r.raised(ValueError), repr(r))
        x.check("refused only outside the window", x.or_(d < KEY_MIN, d >= KEY_MAX))


@harness([KEY + "Key.get_key_change_one_hot_index", HU + "get_key_from_one_hot_index"])
def key_change_round_trip(x):
    """Decoding a key-change index gives back the interval and the new mode."""
    pt = x.choice("pitch_type", PITCH_TYPES)
    a0 = x.int("a", 0, NPITCH[pt])
    b0 = x.int("b", 0, NPITCH[pt])
    m2 = x.choice("mode", MODES)
    m1 = x.choice("mode1", MODES)
    r = x.call(Key(a0, 0, 0, m1, m1, m1, pt).get_key_change_one_hot_index, Key(b0, 1, 1, m2, m1, m1, pt))
    if not r.ok:
        return
    iv, m = x.returns("decode returns", x.call(hu.get_key_from_one_hot_index, r.value, pt, relative=True))
    x.check("mode", m == m2)
    if pt == TPC:
        x.check("interval leads from the old to the new tonic", a0 + iv == b0)
    else:
        x.check("interval leads from the old to the new tonic (mod 12)", (a0 + iv - b0) % 12 == 0)


@harness([KEY + "get_key_change_vector_length", KEY + "Key.get_key_change_vector_length"])
def key_change_lengths(x):
    """Lengths of the key-change encodings equal the vocabulary sizes."""
    pt = x.choice("pitch_type", PITCH_TYPES)
    oh = x.choice("one_hot", [True, False, None])
    kw = {} if oh is None else {"one_hot": oh}
    n = x.returns("returns", x.call(get_key_change_vector_length, pt, **kw))
    x.check("length", n == (2 * NREL[pt] if oh in (True, None) else NREL[pt] + 2))
    t, m, k = a_key(x, pt, "")
    n2 = x.returns("method returns", x.call(k.get_key_change_vector_length, **kw))
    x.check("method agrees", n2 == n)
    vocab = hu.get_key_from_one_hot_index(slice(None), pt, relative=True)
    x.check("one-hot length is the vocabulary size", len(vocab) == 2 * NREL[pt])


@harness([KEY + "Key.get_key_change_vector"])
def key_change_vector(x):
    """The key-change vector: one slot for the interval (none when outside the window), one for the mode."""
    relative_contract(x)
    pt = x.choice("pitch_type", PITCH_TYPES)
    a0 = x.int("a", 0, NPITCH[pt])
    b0 = x.int("b", 0, NPITCH[pt])
    m1, m2 = x.choice("mode1", MODES), x.choice("mode2", MODES)
    a = Key(a0, 0, 0, m1, m2, m2, pt)
    b = Key(b0, 3, 0, m2, m1, m1, pt)
    v = x.returns("returns", x.call(a.get_key_change_vector, b))
    x.check("length", len(v) == NREL[pt] + 2)
    want = [0] * (NREL[pt] + 2)
    d = b0 - a0
    if pt == MIDI:
        d = d % 12
        for k in range(12):
            want[k] = x.ite(d == k, 1, 0)
    else:
        for k in range(29):
            want[k] = x.ite(d == k + KEY_MIN, 1, 0)
    want[NREL[pt] + m2.value] = 1
    for k in range(len(want)):
        x.check(f"entry {k}", want[k] == int(v[k]))
