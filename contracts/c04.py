"""C04: transposition and tonic-relative pitch arithmetic."""
from common import *

F1 = [HU + "transpose_pitch"]


@harness(F1)
def transpose_contract(x):
    """transpose_pitch(p, i): MIDI -> (p+i) mod 12; TPC -> p+i, or ValueError exactly when outside [0,35)."""
    pt = x.choice("pitch_type", PITCH_TYPES)
    p, i = x.int("pitch"), x.int("interval")
    r = x.call(hu.transpose_pitch, p, i, pt)
    s = p + i
    if pt == MIDI:
        v = x.returns("MIDI transposition returns", r)
        x.check("MIDI result in [0,12)", x.and_(v >= 0, v < 12))
        x.check("MIDI result congruent to pitch+interval", (v - s) % 12 == 0)
    elif r.ok:
        x.check("TPC result is pitch+interval", r.value == s)
        x.check("TPC result in [0,35)", x.and_(r.value >= 0, r.value < 35))
    else:
        x.check("TPC refusal is a ValueError", r.raised(ValueError), repr(r))
        x.check("TPC refused only outside [0,35)", x.or_(s < 0, s >= 35))


@harness(F1)
def transpose_inverse_lemma(x):
    """Transposing up then down by the same interval is the identity; transpositions compose."""
    transpose_pitch_contract(x)
    pt = x.choice("pitch_type", PITCH_TYPES)
    p = x.int("pitch", 0, NPITCH[pt])
    i, j = x.int("interval"), x.int("interval2")
    a = x.call(hu.transpose_pitch, p, i, pt)
    if not a.ok:
        return
    b = x.call(hu.transpose_pitch, a.value, -i, pt)
    x.check("inverse transposition accepted", b.ok)
    x.check("inverse transposition restores the pitch", b.value == p)
    c = x.call(hu.transpose_pitch, a.value, j, pt)
    d = x.call(hu.transpose_pitch, p, i + j, pt)
    x.check("composition accepted together", c.ok == d.ok)
    if c.ok:
        x.check("composition agrees", c.value == d.value)


@harness([HU + "absolute_to_relative"])
def relative_contract(x):
    """absolute_to_relative: offset inside the documented window (shifted to start at 0), ValueError outside."""
    transpose_pitch_contract(x)
    pt = x.choice("pitch_type", PITCH_TYPES)
    kc = x.choice("is_key_change", [True, False])
    pad = x.choice("pad", [True, False, None])
    p, k = x.int("pitch"), x.int("tonic")
    kw = {} if pad is None else {"pad": pad}
    r = x.call(hu.absolute_to_relative, p, k, pt, kc, **kw)
    if pt == MIDI:
        v = x.returns("MIDI relative pitch returns", r)
        x.check("MIDI relative pitch in [0,12)", x.and_(v >= 0, v < 12))
        x.check("MIDI relative pitch + tonic is the pitch", (v + k - p) % 12 == 0)
        return
    lo, hi = (KEY_MIN, KEY_MAX) if kc else (REL_MIN, REL_MAX)
    if pad and not kc:
        lo, hi = lo - REL_PAD, hi + REL_PAD
    d = p - k
    inside = x.and_(d >= lo, d < hi)
    if r.ok:
        x.check("TPC relative accepted only inside the window", inside)
        x.check("TPC relative is the shifted difference", r.value == d - lo)
        x.check("TPC relative is a valid slot", x.and_(r.value >= 0, r.value < hi - lo))
    else:
        x.check("TPC refusal is a ValueError", r.raised(ValueError), repr(r))
        x.check("TPC relative refused only outside the window", x.not_(inside))


@harness([HU + "absolute_to_relative", HU + "transpose_pitch"])
def relative_transposition_lemma(x):
    """The relative pitch does not change when pitch and tonic are transposed together."""
    transpose_pitch_contract(x)
    pt = x.choice("pitch_type", PITCH_TYPES)
    kc = x.choice("is_key_change", [True, False])
    pad = x.choice("pad", [True, False])
    p, k, t = x.int("pitch"), x.int("tonic"), x.int("shift")
    a = x.call(hu.absolute_to_relative, p, k, pt, kc, pad)
    b = x.call(hu.absolute_to_relative, p + t, k + t, pt, kc, pad)
    x.check("accepted together", a.ok == b.ok)
    if a.ok:
        x.check("same relative pitch", a.value == b.value)


@harness([HU + "tpc_interval_to_midi_interval"])
def interval_conversion_contract(x):
    """A fifth is seven semitones, modulo the octave; conversion is a homomorphism."""
    i, j = x.int("interval"), x.int("interval2")
    r = x.call(hu.tpc_interval_to_midi_interval, i)
    v = x.returns("conversion returns", r)
    x.check("in [0,12)", x.and_(v >= 0, v < 12))
    x.check("congruent to 7*fifths", (v - 7 * i) % 12 == 0)
    w = x.returns("second conversion returns", x.call(hu.tpc_interval_to_midi_interval, i + j))
    u = x.returns("third conversion returns", x.call(hu.tpc_interval_to_midi_interval, j))
    x.check("adds up", (w - v - u) % 12 == 0)
