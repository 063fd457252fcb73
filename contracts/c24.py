"""C24: chords, keys and notes keep what they say when converted, compared, stored or merged."""
from common import *

from harmonic_inference.data import chord as chord_mod, key as key_mod, note as note_mod

CM, KM, NM = (f"harmonic_inference.data.{m}:" for m in ("chord", "key", "note"))
# kind: (module, class, pitches, name of the pitch type, other fields)
KINDS = {
    "chord": (
        chord_mod, chord_mod.Chord, ("root", "bass", "key_tonic"), "pitch_type",
        ("key_mode", "chord_type", "inversion", "onset", "onset_level", "offset", "offset_level", "duration", "suspension"),
    ),
    "key": (
        key_mod, key_mod.Key, ("relative_tonic", "local_tonic", "global_tonic"), "tonic_type",
        ("relative_mode", "local_mode", "global_mode"),
    ),
    "note": (
        note_mod, note_mod.Note, ("pitch_class",), "pitch_type",
        ("octave", "onset", "onset_level", "duration", "offset", "offset_level", "mc_onset"),
    ),
}


def value(x, field, name=""):
    """Any value of a field."""
    if field == "chord_type":
        return x.choice(field + name, TYPES[::5])
    if field.endswith("mode"):
        return x.choice(field + name, MODES)
    if field in ("onset", "offset"):
        return (x.int(field + name + " measure", 0), x.real(field + name + " beat"))
    if field in ("duration", "mc_onset"):
        return x.real(field + name, 0)
    if field == "suspension":
        return x.choice(field + name, [None, "64"] if not name else [None, "64", "+b2"])
    return x.int(field + name, 0, 4 if field in ("inversion", "onset_level", "offset_level") else 10)


class Name:
    """What get_pitch_string gives for a pitch: read back by get_pitch_from_string (proved in C01)."""

    def __init__(self, pitch, kind):
        self.pitch, self.kind = pitch, kind


def sounds_same(x, q, dst, p, src):
    if src == dst:
        return q == p
    tpc, midi = (p, q) if src == TPC else (q, p)
    return x.and_(q >= 0, q < NPITCH[dst], (7 * (tpc - 15) - midi) % 12 == 0)


def spelling(x, mod):
    """The contract of the two spelling functions, proved in C01 (round_trip)."""
    if not x.symbolic:
        return

    def read(name, kind):
        if not isinstance(name, Name):
            return hu.get_pitch_from_string(name, kind)
        q = x.fresh_int("pitch")
        x.assume(sounds_same(x, q, kind, name.pitch, name.kind))
        return q

    x.stub(mod, "get_pitch_string", lambda pitch, kind: Name(pitch, kind))
    x.stub(mod, "get_pitch_from_string", read)


def make(x, kind, pt, name=""):
    mod, cls, pitches, type_name, fields = KINDS[kind]
    vals = {p: x.int(p + name, 0, NPITCH[pt]) for p in pitches}
    vals[type_name] = pt
    for f in fields:
        vals[f] = value(x, f, name)
    return cls(**vals), vals


def same(x, a, b):
    """Equality of two field values as a formula."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return x.and_(*[same(x, i, j) for i, j in zip(a, b)]) if len(a) == len(b) else False
    if a is None or b is None or isinstance(a, (str, ChordType, KeyMode, PitchType)):
        return a is b or (type(a) is type(b) and a == b)
    return a == b


def says(x, label, obj, vals, but=()):
    for f, v in vals.items():
        if f not in but:
            x.check(f"{label}: {f}", same(x, getattr(obj, f), v))


def convert(x, kind):
    mod, cls, pitches, type_name, fields = KINDS[kind]
    src, dst = x.choice("from", PITCH_TYPES), x.choice("to", PITCH_TYPES)
    spelling(x, mod)
    obj, vals = make(x, kind, src)
    r = x.returns("converts", x.call(obj.to_pitch_type, dst))
    x.check("one of the same kind", type(r) is cls and r is not obj)
    x.check("of the pitch type asked for", getattr(r, type_name) == dst)
    for p in pitches:
        x.check(f"{p} sounds the same", sounds_same(x, getattr(r, p), dst, vals[p], src))
    says(x, "kept", r, vals, but=pitches + (type_name,))
    says(x, "original left alone", obj, vals)


@harness([CM + "Chord.to_pitch_type", CM + "Chord.__init__"])
def chord_converted(x):
    """A chord in the other pitch type: each of its pitches sounds the same, everything else is unchanged."""
    convert(x, "chord")


@harness([KM + "Key.to_pitch_type", KM + "Key.__init__"])
def key_converted(x):
    """A key in the other pitch type: its three tonics sound the same, everything else is unchanged."""
    convert(x, "key")


@harness([NM + "Note.to_pitch_type", NM + "Note.__init__"])
def note_converted(x):
    """A note in the other pitch type: same sounding pitch, everything else is unchanged."""
    convert(x, "note")


@harness([NM + "Note.get_midi_note_number"])
def note_number(x):
    """A note's MIDI number is twelve per octave plus its sounding pitch class."""
    pt = x.choice("pitch_type", PITCH_TYPES)
    spelling(x, note_mod)
    obj, vals = make(x, "note", pt)
    n = x.returns("returns", x.call(obj.get_midi_note_number))
    pc = n - 12 * vals["octave"]
    x.check("in its octave", x.and_(pc >= 0, pc < 12))
    x.check("its pitch class", sounds_same(x, pc, MIDI, vals["pitch_class"], pt))


def pair(x, kind):
    """Two of a kind; they agree except in the chosen field (or anywhere)."""
    mod, cls, pitches, type_name, fields = KINDS[kind]
    a, vals = make(x, kind, x.choice("pitch_type", PITCH_TYPES))
    differs = x.choice("differs", [None, "everything", type_name, *pitches, *fields])
    if differs is None:
        other = dict(vals)
    elif differs == "everything":
        pt = x.choice("pitch_type b", PITCH_TYPES)
        other = {p: x.int(p + " b", 0, NPITCH[pt]) for p in pitches}
        other[type_name] = pt
        for f in fields:
            other[f] = vals[f] if f.endswith("mode") or f in ("chord_type", "suspension") else value(x, f, " b")
    else:
        other = dict(vals)
        if differs == type_name:
            other[differs] = x.choice("pitch_type b", PITCH_TYPES)
        elif differs in pitches:
            other[differs] = x.int(differs + " b", 0, NPITCH[vals[type_name]])
        else:
            other[differs] = value(x, differs, " b")
    return a, vals, cls(**other), other


def truth(x, label, got, want):
    x.check(label, x.and_(x.implies(want, got), x.implies(got, want)) if x.symbolic else bool(got) == bool(want))


def equality(x, kind):
    a, va, b, vb = pair(x, kind)
    r = x.returns("compares", x.call(lambda: a == b))
    truth(x, "equal exactly when everything agrees", r, x.and_(*[same(x, va[f], vb[f]) for f in va]))
    says(x, "left alone", a, va)
    says(x, "left alone", b, vb)
    for o in (None, "x", va):
        x.check("never equal to something else", x.returns("compares", x.call(lambda: a == o)) is False)


@harness([CM + "Chord.__eq__"])
def chord_equality(x):
    """Two chords are equal exactly when every field agrees."""
    equality(x, "chord")


@harness([KM + "Key.__eq__"])
def key_equality(x):
    """Two keys are equal exactly when every field agrees."""
    equality(x, "key")


@harness([NM + "Note.__eq__"])
def note_equality(x):
    """Two notes are equal exactly when every field agrees."""
    equality(x, "note")


def stored(x, kind):
    mod, cls, pitches, type_name, fields = KINDS[kind]
    obj, vals = make(x, kind, x.choice("pitch_type", PITCH_TYPES))
    d = x.returns("stored", x.call(obj.to_dict))
    x.check("exactly its fields", set(d) == set(vals))
    for f, v in vals.items():
        x.check(f"stored {f}", same(x, d[f], v))
    r = x.returns("loaded", x.call(lambda: cls(**d)))
    says(x, "loaded", r, vals)


@harness([CM + "Chord.to_dict", CM + "Chord.__init__"])
def chord_stored(x):
    """A chord's dictionary has exactly its fields, and the chord made from it is the same."""
    stored(x, "chord")


@harness([KM + "Key.to_dict", KM + "Key.__init__"])
def key_stored(x):
    """A key's dictionary has exactly its fields, and the key made from it is the same."""
    stored(x, "key")


@harness([NM + "Note.to_dict", NM + "Note.__init__"])
def note_stored(x):
    """A note's dictionary has exactly its fields, and the note made from it is the same."""
    stored(x, "note")


@harness([CM + "Chord.is_repeated"])
def chord_repeated(x):
    """A chord repeats another exactly when root and type (and inversion and alterations, if they count) agree in
    the same pitch type."""
    a, va, b, vb = pair(x, "chord")
    inv, sus = x.choice("inversions count", [None, True, False]), x.choice("alterations count", [None, True, False])
    kw = {k: v for k, v in (("use_inversion", inv), ("use_suspension", sus)) if v is not None}
    fields = ["pitch_type", "root", "chord_type"] + ["inversion"] * (inv is not False) + ["suspension"] * (sus is True)
    r = x.returns("compares", x.call(a.is_repeated, b, **kw))
    truth(x, "repeated exactly when these agree", r, x.and_(*[same(x, va[f], vb[f]) for f in fields]))
    x.check("repeats nothing else", x.returns("compares", x.call(a.is_repeated, None, **kw)) is False)


@harness([KM + "Key.is_repeated", KM + "Key.equals"])
def key_repeated(x):
    """A key repeats another exactly when the tonic and mode asked for (applied or local) agree in the same pitch type."""
    a, va, b, vb = pair(x, "key")
    rel = x.choice("applied keys count", [None, True, False])
    kw = {} if rel is None else {"use_relative": rel}
    which = "local" if rel is False else "relative"
    want = x.and_(*[same(x, va[f], vb[f]) for f in ("tonic_type", which + "_tonic", which + "_mode")])
    for name in ("is_repeated", "equals"):
        r = x.returns("compares", x.call(getattr(a, name), b, **kw))
        truth(x, "repeated exactly when these agree", r, want)
        x.check("repeats nothing else", x.returns("compares", x.call(getattr(a, name), None, **kw)) is False)


@harness([CM + "Chord.merge_with"])
def chord_merged(x):
    """Merged with the next chord: it ends where that one ends and lasts as long as both; nothing else changes."""
    a, va = make(x, "chord", TPC)
    b, vb = make(x, "chord", TPC, " b")
    x.returns("merges", x.call(a.merge_with, b))
    want = dict(va, offset=vb["offset"], offset_level=vb["offset_level"], duration=va["duration"] + vb["duration"])
    says(x, "merged", a, want)
    says(x, "the next one left alone", b, vb)
