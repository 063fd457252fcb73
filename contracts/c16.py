"""C16: reading notes and chords: each says exactly what its table row, label line or score element says."""
from common import *
from collections import defaultdict
from fractions import Fraction
import contextlib
import io
import os
import shutil
import tempfile
import numpy as np
import pandas as pd
from pyvc.instrument import LoopContract
from pyvc.smt import BOOL, INT, REAL
from pyvc.sym import Unsupported
from c05 import *  # noqa: F401,F403
from c07 import CONTENT, FIG, SYMBOLS, tones
from c08 import lengths_spec
import harmonic_inference.data.chord as chord_mod
import harmonic_inference.data.note as note_mod
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.key import Key
from harmonic_inference.data.note import Note

HARNESSES = []
CH = "harmonic_inference.data.chord:Chord."
NO = "harmonic_inference.data.note:Note."
OFF = "mc_offset"


def abstract(x):
    return x.symbolic and x.mode_unroll is None


class O:
    def __init__(self, **k):
        self.__dict__.update(k)


# ---- a table of measures of any size -----------------------------------------------------------------
class Mask:
    def __init__(self, mc=None, until=None):
        self.mc, self.until = mc, until


class Col:
    def __init__(self, name):
        self.name = name

    def __eq__(self, v):
        if self.name != "mc":
            raise Unsupported("lookup by " + self.name)
        return Mask(mc=v)

    def __le__(self, v):
        if self.name != "start":
            raise Unsupported("comparison of " + self.name)
        return Mask(until=v)

    __hash__ = None

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("column." + n)


class Sel:
    def __init__(self, t, mask):
        self.t, self.mask = t, mask
        self.iloc = self

    def squeeze(self):
        if self.mask.mc is None:
            raise Unsupported("squeeze of several rows")
        return Measure(self.t, self.mask.mc)

    def __getitem__(self, i):
        x, t = self.t.x, self.t
        if self.mask.mc is not None and i in (0, -1):
            return Measure(t, self.mask.mc)
        if self.mask.until is not None and i == -1:
            return Measure(t, t.last_until(self.mask.until))
        raise Unsupported("row of a selection")


class Measure:
    def __init__(self, t, mc):
        self.t, self.mc = t, mc

    def __getitem__(self, k):
        t = self.t
        if k == "mc":
            return self.mc
        if k == "next":
            return None if t.is_last(self.mc) else t.next(self.mc)
        f = {"timesig": t.sig, "act_dur": t.dur, OFF: t.off, "start": t.start}.get(k)
        if f is None:
            raise KeyError(k)
        return f(self.mc)


class Table:
    """Measures known through functions of their number; ghost: position of each measure's start."""

    def __init__(self, x):
        self.x = x
        self.loc = self

    def __getitem__(self, k):
        if isinstance(k, str):
            return Col(k)
        if isinstance(k, Mask):
            return Sel(self, k)
        raise Unsupported("lookup in the measures")

    def sig(self, m):
        return self.x.ufun("time signature", INT, m)

    def dur(self, m):
        v = self.x.ufun("measure length", REAL, m)
        self.x.assume(v > 0)
        return v

    def off(self, m):
        return self.x.ufun("measure offset", REAL, m)

    def start(self, m):
        return self.x.ufun("measure start", REAL, m)

    def steps(self, m):
        v = self.x.ufun("measures to the end", INT, m)
        self.x.assume(v >= 0)
        return v

    def is_last(self, m):
        return self.steps(m) == 0

    def next(self, m):
        x = self.x
        v = x.ufun("next measure", INT, m)
        x.assume(self.steps(v) == self.steps(m) - 1)
        x.assume(self.start(v) == self.start(m) + self.dur(m))
        return v

    def last_until(self, p):
        """Number of the last row starting at or before p (what that means is the caller's contract)."""
        return self.x.ufun("measure at", INT, p)

    def level(self, beat, m):
        return self.x.ufun("level", INT, beat, self.sig(m))


class Cache:
    """A level cache in any correct state: some beats of some time signatures, with their levels."""

    def __init__(self, x, table):
        self.x, self.table = x, table

    def __getitem__(self, sig):
        return Inner(self, sig)


class Inner:
    def __init__(self, c, sig):
        self.c, self.sig = c, sig

    def right(self, beat):
        return self.c.x.ufun("level", INT, beat, self.sig)

    def __contains__(self, beat):
        return bool(self.c.x.fresh_bool("cached"))

    def __getitem__(self, beat):
        return self.right(beat)

    def get(self, beat, default=None):
        return self.right(beat) if self.c.x.fresh_bool("cached") else default

    def __setitem__(self, beat, v):
        self.c.x.check("the cache stores the level of this beat in this time signature", v == self.right(beat))


def setting(x, fixed=()):
    t = Table(x)
    stub_everywhere(x, "get_metrical_level", lambda beat, measure: t.level(beat, measure.mc))
    use = fixed["level cache"] if "level cache" in fixed else x.choice("level cache", [True, False])
    return t, Cache(x, t) if use else None


# ---- the same, with a real table ------------------------------------------------------------------
class Real:
    def __init__(self, x, pickup=True):
        n = x.choice("measures", [1, 2, 3, 5])
        self.rows, at = [], Fraction(0)
        for i in range(n):
            num, den = x.choice(f"meter {i}", [(4, 4), (3, 4), (6, 8), (2, 2), (9, 8)])
            full = Fraction(num, den)
            o = x.choice(f"offset {i}", [0, 0, 0, 1, 2]) * Fraction(1, 8) if pickup else 0
            o = Fraction(o) if o < full else Fraction(0)
            cut = full - o
            self.rows.append(dict(mc=i, mn=i, timesig=f"{num}/{den}", start=at, act_dur=cut, mc_offset=o, next=i + 1, nd=(num, den)))
            at += cut
        self.rows[-1]["next"] = pd.NA
        self.total = at
        cols = ["mc", "mn", "timesig", "start", "act_dur", "mc_offset", "next"]
        self.df = pd.DataFrame({c: pd.Series([r[c] for r in self.rows], dtype=object) for c in cols})

    def level(self, beat, mc):
        n, d = self.rows[mc]["nd"]
        comp = n > 3 and n % 3 == 0
        m, b, s = Fraction(n, d), Fraction(3 if comp else 1, d), Fraction(2 if comp else 1, 2 * d)
        for v, lv in ((m, 3), (b, 2), (s, 1)):
            if beat % v == 0:
                return lv
        return 0

    def at(self, p):
        i = max(r["mc"] for r in self.rows if r["start"] <= p)
        return i, p - self.rows[i]["start"] + self.rows[i]["mc_offset"]


def cache_of(x):
    return defaultdict(dict) if x.choice("level cache", [True, False]) else None


def check_timing(x, got, on, off, level, mc_of=None):
    x.check("onset", x.and_(got.onset[0] == on[0], got.onset[1] == on[1]))
    x.check("offset", x.and_(got.offset[0] == off[0], got.offset[1] == off[1]))
    x.check("metrical level of the onset", got.onset_level == level(on[1], on[0]))
    x.check("metrical level of the end", got.offset_level == level(off[1], off[0]))


# ---- notes -----------------------------------------------------------------------------------------
@harness([NO + "from_series"])
def note_row(x):
    """A note row: pitch class, octave, onset, end, levels, duration; no note exactly when a tonal pitch is out of
    the range."""
    pt = x.choice("pitch type", PITCH_TYPES)
    tpc, midi = x.int("tpc"), x.int("midi", 0, 128)
    if abstract(x):
        t, cache = setting(x)
        m0, m1 = x.int("mc"), x.int("offset mc")
        b0, b1, d, mo = x.real("beat"), x.real("offset beat"), x.real("duration"), x.real("mc onset")
        level, df = t.level, t
    else:
        r = Real(x)
        cache = cache_of(x)
        m0, m1 = x.choice("mc", range(len(r.rows))), x.choice("offset mc", range(len(r.rows)))
        b0, b1, d, mo = [Fraction(x.choice(k, range(12)), 8) for k in ("b0", "b1", "d", "mo")]
        level, df = r.level, r.df
    row = {
        "tpc": tpc, "midi": midi, "mc": m0, "mn_onset": b0, "offset_mc": m1, "offset_beat": b1, "duration": d, "mc_onset": mo,
    }
    n = x.returns("never raises", x.call(Note.from_series, row, df, pt, levels_cache=cache))
    inside = x.and_(tpc >= -15, tpc < 20) if pt == TPC else True
    if n is None:
        x.check("no note only when its pitch is out of range", x.not_(inside))
        return
    x.check("a note only when its pitch is in range", inside)
    x.check("pitch class", n.pitch_class == (tpc + 15 if pt == TPC else midi % 12))
    x.check("octave", n.octave == midi // 12)
    check_timing(x, n, (m0, b0), (m1, b1), level)
    x.check("duration", n.duration == d)
    x.check("position in the measure", n.mc_onset == mo)
    x.check("pitch type", n.pitch_type == pt)


class ToOffset(LoopContract):
    needs = ("offset_measure", "tmp_duration")

    def __init__(self, t, end):
        self.t, self.end = t, end

    def havoc(self, x, L):
        return {"offset_measure": Measure(self.t, x.fresh_int("measure")), "tmp_duration": x.fresh_real("rest")}

    def inv(self, x, L):
        m = L["offset_measure"].mc
        return [
            ("the rest ends where the note ends", self.t.start(m) + L["tmp_duration"] == self.end),
            ("not past the end", L["tmp_duration"] >= 0),
        ]

    def variant(self, x, L):
        return self.t.steps(L["offset_measure"].mc)


NAMES = [(n + a.replace("b", "-"), n, a) for n in "ABCDEFG" for a in ("", "#", "b", "##", "bb")]


@harness([NO + "from_music21"], budget=150)
def score_note(x):
    """A note of a score: its pitch, octave, onset and end (in the measure in which it ends, however many measures
    later and also from or into incomplete measures), levels and duration; in a chord, the chord's timing."""
    pt = x.choice("pitch type", PITCH_TYPES)
    name, letter, acc = x.choice("name", NAMES)
    octave = x.int("octave", 0, 10)
    in_chord = x.choice("in a chord", [True, False])
    if abstract(x):
        t, cache = setting(x)
        m = x.int("mc")
        start, dur = x.real("start"), x.real("duration")
        x.assume(x.and_(start >= 0, start < t.dur(m), dur >= 0))
        end = t.start(m) + start + dur
        x.loop("data.note.Note.from_music21#0", ToOffset(t, end))
        df, level = t, t.level
        offset_of, q4 = t.off, lambda v: v * 4
        rel = start
    else:
        r = Real(x)
        cache = cache_of(x)
        m = x.choice("mc", range(len(r.rows)))
        u = Fraction(1, 16)
        start = u * x.choice("start", range(int(r.rows[m]["act_dur"] / u)))
        dur = u * x.choice("duration", [0, 1, 2, 4, 8, 12, 16, 24, 40])
        end = r.rows[m]["start"] + start + dur
        df, level, q4 = r.df, r.level, lambda v: v * 4
        offset_of = lambda k: r.rows[k]["mc_offset"]  # noqa: E731
    timing = dict(offset=q4(start), quarterLength=q4(dur))
    note = O(pitch=O(name=name), octave=octave, **({} if in_chord else timing))
    chord = O(**timing) if in_chord else None
    kw = {} if chord is None else {"m21_chord": chord}
    n = x.returns("returns", x.call(Note.from_music21, note, df, m, pt, levels_cache=cache, **kw))
    p = LETTER[pt][letter] + ACC[pt] * (acc.count("#") - acc.count("b"))
    x.check("pitch class", n.pitch_class == (p % 12 if pt == MIDI else p))
    x.check("octave", n.octave == octave)
    x.check("onset", x.and_(n.onset[0] == m, n.onset[1] == start + offset_of(m)))
    x.check("position in the measure", n.mc_onset == start)
    em, eb = n.offset
    if abstract(x):
        x.check("ends where it ends", t.start(em) + eb - t.off(em) == end)
        x.check("in the measure in which it ends", x.or_(eb - t.off(em) < t.dur(em), t.steps(em) == 0))
        x.check("not before that measure", eb - t.off(em) >= 0)
    else:
        x.check("ends where it ends", (em, eb) == r.at(end))
    x.check("metrical level of the onset", n.onset_level == level(n.onset[1], m))
    x.check("metrical level of the end", n.offset_level == level(eb, em))
    x.check("duration", n.duration == dur)
    x.check("pitch type", n.pitch_type == pt)


# ---- chords ------------------------------------------------------------------------------------------
def a_key(x, pt, fixed=()):
    lo, hi = 0, NPITCH[pt]
    rt, lt, gt = [x.int(k, lo, hi) for k in ("applied tonic", "local tonic", "global tonic")]
    rm = x.choice("applied mode", MODES)
    lm = fixed["local mode"] if x.symbolic and "local mode" in fixed else x.choice("local mode", MODES)
    return Key(rt, lt, gt, rm, lm, MODES[0], pt)


def row_of_chord(x, **fixed):
    def pick(k, options):
        return fixed[k] if x.symbolic and k in fixed else x.choice(k, options)

    pt = pick("pitch type", PITCH_TYPES)
    transpose_pitch_contract(x)
    interval = x.int("root interval")
    i = pick("type", range(12))
    fig = pick("figures", [f for f in FIG if f is None or len(f) < 3])
    red = pick("reduction", [NO_REDUCTION, TRIAD_REDUCTION, ALL_ONE_TYPE_REDUCTION, OWN_REDUCTION])
    use_inv, use_rel = pick("use inversions", [True, False]), pick("use applied keys", [True, False])
    key = a_key(x, pt, fixed)
    given = pick("key given", [True, False])
    numeral = pick("numeral", ["V", "@none", None])
    readable = given or x.choice("key readable", [True, False])
    changes = pick("changes", [None, "4", float("nan")])
    if abstract(x):
        t, cache = setting(x, fixed)
        m0, m1 = x.int("mc"), x.int("mc next")
        b0, b1, d = x.real("beat"), x.real("beat next"), x.real("duration")
        level, df = t.level, t
    else:
        r = Real(x)
        cache = cache_of(x)
        m0, m1 = x.choice("mc", range(len(r.rows))), x.choice("mc next", range(len(r.rows)))
        b0, b1, d = [Fraction(x.choice(k, range(12)), 8) for k in ("b0", "b1", "d")]
        level, df = r.level, r.df
    row = {
        "numeral": numeral, "root": interval, "bass_note": 3, "chord_type": SYMBOLS[i], "figbass": fig, "mc": m0, "mn_onset": b0,
        "mc_next": m1, "mn_onset_next": b1, "duration": d, "changes": changes,
        "globalkey": "C", "globalkey_is_minor": False, "localkey": "I", "localkey_is_minor": False, "relativeroot": None,
    }
    if not given:
        if x.symbolic:
            real_key = key

            class Keys:
                @staticmethod
                def from_series(chord_row, tonic_type):
                    x.check("the key is read from this row", chord_row is row)
                    x.check("in this pitch type", tonic_type == pt)
                    return real_key if readable else None

            x.replace(chord_mod, "Key", Keys)
        else:
            tonic = x.choice("global tonic letter", list("CDEFGAB"))
            local = x.choice("local key", ["I", "V", "vi", "bVII"])
            applied = x.choice("applied to", [None, "V", "ii"])
            row.update(globalkey=tonic if readable else "H", localkey=local, localkey_is_minor=local == "vi", relativeroot=applied)
            if readable:
                key = Key.from_series(row, pt)
    kw = dict(reduction=red, use_inversion=use_inv, use_relative=use_rel, levels_cache=cache)
    if given:
        kw["key"] = key
    c = x.returns("never raises", x.call(Chord.from_series, row, df, pt, **kw))
    if numeral != "V" or not readable:
        x.check("no chord for a no-chord label or without a key", c is None)
        return
    t_ = red[TYPES[i]]
    root = key.local_tonic + (interval if pt == TPC else 7 * interval)
    root = root % 12 if pt == MIDI else root
    inv = FIG[fig] % len(CONTENT[t_]) if use_inv else 0
    bass = root + tones(t_, pt)[inv]
    bass = bass % 12 if pt == MIDI else bass
    inside = x.and_(root >= 0, root < NPITCH[pt], bass >= 0, bass < NPITCH[pt])
    if c is None:
        x.check("no chord only when root or bass is out of range", x.not_(inside))
        return
    x.check("a chord only when root and bass are in range", inside)
    x.check("root", c.root == root)
    x.check("bass", c.bass == bass)
    x.check("type", c.chord_type == t_)
    x.check("inversion", c.inversion == inv)
    want = (key.relative_tonic, key.relative_mode) if use_rel else (key.local_tonic, key.local_mode)
    x.check("key", x.and_(c.key_tonic == want[0], c.key_mode == want[1]))
    check_timing(x, c, (m0, b0), (m1, b1), level)
    x.check("duration", c.duration == d)
    x.check("pitch type", c.pitch_type == pt)
    x.check("alterations", c.suspension == ("4" if changes == "4" else None))


CHORD_ROW = """A chord row: root above the local tonic, reduced type, inversion by its figures (within the reduced
chord), bass, key (applied or local), timing, alterations. No chord exactly for an explicit no-chord label or when
root, bass or key cannot be represented."""


def add_harness(fn, function, name, doc, samples=100, **fixed):
    def h(x):
        fn(x, **fixed)

    h.__name__, h.__doc__ = name, doc
    harness([function], budget=250, samples=samples, max_seconds=30 if samples > 100 else 10)(h)


def add_rows():
    """The choices that do not meet in the code are covered by slices, those that do by their full product."""
    for pt in PITCH_TYPES:
        n = "tonal" if pt == TPC else "midi"
        add_harness(
            row_of_chord, CH + "from_series", f"row_sound_{n}", CHORD_ROW + " Slice: every type, inversion and reduction.",
            **{
                "pitch type": pt, "level cache": False, "use applied keys": True, "key given": True, "numeral": "V",
                "changes": "4", "local mode": MODES[1],
            },
        )
    add_harness(
        row_of_chord, CH + "from_series", "row_time_and_key",
        CHORD_ROW + " Slice: missing chords and keys, times, level cache, applied keys.", samples=400,
        **{"type": 5, "reduction": NO_REDUCTION, "figures": "65", "use inversions": True},
    )


add_rows()

CSV_TYPES = {
    "D7": 5, "M": 0, "M7": 4, "d": 2, "a": 3, "d7": 8, "m": 1, "m7": 7, "Gr+6": 0, "Fr+6": 0, "It+6": 0, "h7": 9,
}


def label(x, **fixed):
    def pick(k, options):
        return fixed[k] if x.symbolic and k in fixed else x.choice(k, options)

    pt = pick("pitch type", PITCH_TYPES)
    transpose_pitch_contract(x)
    interval_contract(x)
    kind = pick("type", list(CSV_TYPES))
    acc = pick("accidentals", ["", "-", "+", "--", "++"])
    deg = pick("degree", [str(i) for i in range(1, 8)])
    applied = pick("applied", ["", "/5"])
    inv = x.int("inversion", 0, 4)
    use_inv, use_rel = pick("use inversions", [True, False]), pick("use applied keys", [True, False])
    red = pick("reduction", [NO_REDUCTION, TRIAD_REDUCTION, OWN_REDUCTION])
    key = a_key(x, pt, fixed)
    if abstract(x):
        t, cache = setting(x, fixed)
        a, b = x.real("on"), x.real("off")
        m0, m1 = t.last_until(a), t.last_until(b)
        b0, b1 = t.off(m0) + a - t.start(m0), t.off(m1) + b - t.start(m1)
        level, df = t.level, t
    else:
        r = Real(x)
        cache = cache_of(x)
        u = Fraction(1, 8)
        a = u * x.choice("on", range(int(r.total / u)))
        b = min(a + u * x.choice("length", [1, 2, 5, 9]), r.total)
        (m0, b0), (m1, b1) = r.at(a), r.at(b)
        level, df = r.level, r.df
    row = {"on": a, "off": b, "key": "C", "degree": acc + deg + applied, "type": kind, "inv": inv}
    with contextlib.redirect_stdout(io.StringIO()):
        out = x.call(
            Chord.from_labels_csv_row, row, df, pt, reduction=red, use_inversion=use_inv, use_relative=use_rel, key=key,
            levels_cache=cache,
        )
    ty = TYPES[CSV_TYPES[kind]]
    adj = acc.count("+") - acc.count("-")
    minor = key.relative_mode == KeyMode.MINOR
    if minor and deg == "7":
        adj += 1
    if minor and deg == "6" and adj == 2:
        adj = 1
    root = key.relative_tonic + SCALE[key.relative_mode][pt][int(deg) - 1] + ACC[pt] * adj
    root = root % 12 if pt == MIDI else root
    t_ = red[ty]
    i = 0 if kind.endswith("+6") or not use_inv else inv % len(CONTENT[t_])
    tn = tones(t_, pt)
    bass = root + (tn[i] if isinstance(i, int) else x.ite(i == 0, tn[0], x.ite(i == 1, tn[1], x.ite(i == 2, tn[2], tn[-1]))))
    bass = bass % 12 if pt == MIDI else bass
    inside = x.and_(root >= 0, root < NPITCH[pt], bass >= 0, bass < NPITCH[pt])
    if not out.ok:
        x.check("refused only when root or bass is out of range", x.and_(out.raised(ValueError), x.not_(inside)), repr(out))
        return
    c = out.value
    x.check("a chord only when root and bass are in range", inside)
    x.check("root", c.root == root)
    x.check("type", c.chord_type == t_)
    x.check("inversion", c.inversion == i)
    x.check("bass", c.bass == bass)
    want = (key.relative_tonic, key.relative_mode) if use_rel else (key.local_tonic, key.local_mode)
    x.check("key", x.and_(c.key_tonic == want[0], c.key_mode == want[1]))
    check_timing(x, c, (m0, b0), (m1, b1), level)
    x.check("duration", c.duration == b - a)
    x.check("pitch type", c.pitch_type == pt)


LABEL = """A label line: root by its degree of the (applied) key, where in minor an unaltered 7 means the raised
seventh; type, inversion (augmented sixths in root position), bass, key, timing from times since the beginning."""


def add_labels():
    """The choices that do not meet in the code are covered by slices, those that do by their full product."""

    for pt in PITCH_TYPES:
        n = "tonal" if pt == TPC else "midi"
        for r, red in (("", NO_REDUCTION), ("_reduced", TRIAD_REDUCTION)):
            add_harness(
                label, CH + "from_labels_csv_row", f"label_sound_{n}{r}", LABEL + " Slice: every degree, type and inversion, applied or not.",
                **{"pitch type": pt, "reduction": red, "level cache": False, "use applied keys": True, "applied": "",
                   "local mode": MODES[1]},
            )
    add_harness(
        label, CH + "from_labels_csv_row", "label_time_and_key", LABEL + " Slice: times, keys, level cache, applied degrees.", samples=500,
        **{"type": "D7", "reduction": NO_REDUCTION, "degree": "7"},
    )


add_labels()


# ---- whole scores ------------------------------------------------------------------------------------
import music21  # noqa: E402
import harmonic_inference.data.piece as pm  # noqa: E402

PM = "harmonic_inference.data.piece:"
STEPS = ["C4", "D4", "E-4", "F#4", "G3", "A3", "B2", "C#5", "B-3"]


def a_score(x):
    """A score with one or two parts: a pick-up or not, changes of meter, notes, chords, rests, ties; first endings.

    Returns the score, the expected measure rows and the expected notes (measure, start, length, name, octave)."""
    nm, parts = x.choice("measures", [1, 2, 3, 4]), x.choice("parts", [1, 2])
    plan, at, sig, epoch = [], Fraction(0), None, None
    change = x.choice("new meter at", [None, 1, 2])
    pickup = x.choice("pick-up", [0, 0, 1, 2]) * Fraction(1, 8)
    ending = x.choice("first ending at", [None, None, 1])
    ending = ending if ending is not None and ending < nm - 1 else None
    first = x.choice("meter", [(4, 4), (3, 4), (6, 8)])
    later = x.choice("later meter", [(2, 4), (3, 8), (3, 4)])
    for i in range(nm):
        s = later if change is not None and i >= change else first
        ln = pickup if i == 0 and pickup and nm > 1 else Fraction(*s)
        plan.append(dict(number=i + (0 if pickup and nm > 1 else 1), sig=s, len=ln, off=Fraction(*s) - ln))
    score = music21.stream.Score()
    made, tied = [], x.choice("tie", [True, False])
    for p in range(parts):
        part = music21.stream.Part()
        hold = None
        for i, m in enumerate(plan):
            me = music21.stream.Measure(number=m["number"])
            if i == 0 or plan[i - 1]["sig"] != m["sig"]:
                me.append(music21.meter.TimeSignature("%d/%d" % m["sig"]))
            pos = Fraction(0)
            while pos < m["len"]:
                k = f"{p}{i}{pos}"
                ln = min(Fraction(x.choice("length" + k, [1, 2, 3, 4]), 8), m["len"] - pos)
                kind = x.choice("kind" + k, ["note", "note", "chord", "rest"])
                if hold is not None:
                    kind = "note"
                q = float(ln * 4)
                if kind == "rest":
                    me.append(music21.note.Rest(quarterLength=q))
                elif kind == "chord":
                    names = [STEPS[j] for j in (x.choice("a" + k, range(4)), 4 + x.choice("b" + k, range(4)))]
                    me.append(music21.chord.Chord(names, quarterLength=q))
                    made += [(p, i, pos, ln, nn) for nn in names]
                else:
                    nn = hold or STEPS[x.choice("n" + k, range(len(STEPS)))]
                    nt = music21.note.Note(nn, quarterLength=q)
                    ends = pos + ln == m["len"]
                    if hold is not None:
                        nt.tie = music21.tie.Tie("stop")
                        o = made[hold_i]
                        made[hold_i] = o[:3] + (o[3] + ln,) + o[4:]
                        hold = None
                    else:
                        made.append((p, i, pos, ln, nn))
                        if tied and parts == 1 and ending is None and ends and i + 1 < nm and x.choice("hold" + k, [True, False]):
                            nt.tie = music21.tie.Tie("start")
                            hold, hold_i = nn, len(made) - 1
                    me.append(nt)
                pos += ln
            part.append(me)
        if ending is not None and p == 0:
            ms = part.getElementsByClass("Measure")
            part.insert(0, music21.spanner.RepeatBracket(ms[ending], number=1))
        score.insert(0, part)
    rows, mcs = [], {}
    for i, m in enumerate(plan):
        if i == ending:
            continue
        mcs[i] = len(rows)
        rows.append(dict(mc=len(rows), mn=m["number"], timesig="%d/%d" % m["sig"], start=at, act_dur=m["len"], mc_offset=m["off"]))
        at += m["len"]
    notes = [(mcs[i], pos, ln, nn) for p, i, pos, ln, nn in made if i in mcs]
    return score, rows, notes, at


def locate(rows, p):
    r = [r for r in rows if r["start"] <= p][-1]
    return r["mc"], p - r["start"] + r["mc_offset"]


@harness(
    [PM + "get_measures_df_from_music21_score", PM + "get_notes_from_music_xml", PM + "get_score_piece_from_music_xml"],
    kind="bounded", bound="random scores of at most 4 measures and 2 parts, at most 6 labels", symbolic=False, samples=70,
    max_seconds=60,
)
def whole_score(x):
    """A piece from a score: its measures (first endings left out), each note once with its place and length (tied notes
    joined), and each usable label's chord in order, changing at its first new note and ranging from the first note
    sounding in it to the next chord's change; keys where they differ."""
    score, rows, want, total = a_score(x)
    nl = x.choice("labels", [0, 1, 2, 3, 5])
    cuts = sorted({0} | {x.choice(f"cut {i}", range(1, int(total * 8))) for i in range(nl - 1)}) if nl else []
    labels = []
    for i, c in enumerate(cuts):
        e = cuts[i + 1] if i + 1 < len(cuts) else int(total * 8)
        labels.append([
            Fraction(c, 8) * 4, Fraction(e, 8) * 4, x.choice(f"key {i}", ["C", "a", "C", "E-", "f+"]),
            x.choice(f"degree {i}", ["1", "5", "2", "5/5", "-7", "6", "5+", "4/2"]), x.choice(f"kind {i}", ["M", "m", "D7", "d7"]),
            x.choice(f"inv {i}", [0, 1, 2, 3]),
        ])
    bad = x.choice("bad line", [None, "before", "empty"]) if labels else None
    file_labels = list(labels)
    if bad == "before":
        file_labels = [[Fraction(-4), Fraction(0), "C", "1", "M", 0]] + file_labels
    if bad == "empty":
        file_labels = file_labels[:1] + [[file_labels[0][1], file_labels[0][1], "C", "1", "M", 0]] + file_labels[1:]
    folder = tempfile.mkdtemp()
    old, reader = pm.parse, pd.read_csv
    try:
        path = os.path.join(folder, "labels.csv")
        with open(path, "w") as f:
            for lb in file_labels:
                f.write(",".join(str(v) for v in lb) + "\n")
        pm.parse = lambda p: score
        # PyPy aborts in pandas' C reader (a stand-in with the same arguments): use its Python reader
        pd.read_csv = lambda *a, **k: reader(*a, **dict(k, engine="python"))
        with contextlib.redirect_stdout(io.StringIO()):
            out = x.call(pm.get_score_piece_from_music_xml, "score.xml", path if labels else None, name="n")
    finally:
        pm.parse, pd.read_csv = old, reader
        shutil.rmtree(folder)
    p = x.returns("returns", out)
    x.check("named as asked", p.name == "n")
    df = p.measures_df
    for c in ("mc", "mn", "timesig", "start", "act_dur", "mc_offset"):
        x.check("measures: " + c, list(df[c]) == [r[c] for r in rows])
    x.check("measures: next", list(df["next"])[:-1] == [r["mc"] for r in rows[1:]] and pd.isna(list(df["next"])[-1]))
    notes = list(p.get_inputs())
    spec = []
    for mc, pos, ln, nn in want:
        r = rows[mc]
        letter, acc, octave = nn[0], nn[1:-1], int(nn[-1])
        spec.append((
            (mc, pos + r["mc_offset"]), locate(rows, min(r["start"] + pos + ln, total)) if r["start"] + pos + ln < total
            else (rows[-1]["mc"], rows[-1]["act_dur"] + rows[-1]["mc_offset"]),
            LETTER[TPC][letter] + 7 * (acc.count("#") - acc.count("-")), octave, ln,
        ))
    x.check("each note once", sorted((n.onset, n.offset, n.pitch_class, n.octave, n.duration) for n in notes) == sorted(spec))
    x.check("notes in order", all(a.onset <= b.onset for a, b in zip(notes, notes[1:])))
    if not labels:
        x.check("no labels: notes alone", p.get_chords() is None and p.get_keys() is None)
        return
    lines = [
        dict(on=a / 4, off=b / 4, key=k, degree=d[:1] if len(d) == 2 and d[1] == "+" else d, type=t, inv=v)
        for a, b, k, d, t, v in labels
    ]
    chords = [Chord.from_labels_csv_row(r, df, TPC) for r in lines]
    x.check("chords", list(p.get_chords()) == chords)
    n = len(notes)
    first = [next((i for i, nt in enumerate(notes) if nt.onset >= c.onset), n - 1) for c in chords]
    if n:
        x.check("chord changes", [int(v) for v in p.get_chord_change_indices()] == first)
        start = [next((i for i, nt in enumerate(notes) if nt.onset >= c.onset or nt.offset > c.onset), n) for c in chords]
        x.check("chord ranges", [tuple(int(u) for u in v) for v in p.get_chord_ranges()] == list(zip(start, first[1:] + [n])))
    ks = [Key.from_labels_csv_row(r, TPC, global_key=Key.from_labels_csv_row(lines[0], TPC)) for r in lines]
    name = lambda k: (k.relative_tonic, k.relative_mode)  # noqa: E731
    at = [i for i, k in enumerate(ks) if i == 0 or name(ks[i - 1]) != name(k)]
    x.check("key changes", [int(v) for v in p.get_key_change_indices()] == at)
    x.check("keys", [name(k) for k in p.get_keys()] == [name(ks[i]) for i in at])
