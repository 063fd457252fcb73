"""C01: pitch spellings and pitch numbers are two faces of the same thing."""
from common import *
from pyvc.instrument import LoopContract

FIFTHS = "FCGDAEB"
MIDI_NAMES = ["C", "C#/Db", "D", "D#/Eb", "E", "F", "F#/Gb", "G", "G#/Ab", "A", "A#/Bb", "B"]
GP = "utils.harmonic_utils.get_pitch_string"


class Up(LoopContract):
    """while pitch < lowest natural: pitch += 7; accidental -= 1"""

    needs = ("pitch", "accidental")
    sign = 1

    def havoc(self, x, L):
        a = x.fresh_int("a")
        return {"accidental": a, "pitch": L["_entry"]["pitch"] - 7 * (a - L["_entry"]["accidental"])}

    def inv(self, x, L):
        p0, a0 = L["_entry"]["pitch"], L["_entry"]["accidental"]
        p, a = L["pitch"], L["accidental"]
        return [
            ("pitch + 7*accidental unchanged", p + 7 * a == p0 + 7 * a0),
            (
                "moved only from outside the naturals",
                x.or_(a == a0, x.and_(a < a0, p - 7 < 14) if self.sign > 0 else x.and_(a > a0, p + 7 > 20)),
            ),
        ]

    def variant(self, x, L):
        return 14 - L["pitch"] + 7 if self.sign > 0 else L["pitch"] - 20 + 7


class Down(Up):
    sign = -1


def read_tpc(r):
    """(sharps - flats, letter) of a spelling, accidentals at the end."""
    return acc_spec(r, in_front=False)


@harness([HU + "get_pitch_string"])
def spelling_contract(x):
    """Every TPC number (any integer) is spelled letter + accidentals with 14+index+7*accidentals equal to
    it; MIDI numbers are named by their pitch class."""
    pt = x.choice("pitch_type", PITCH_TYPES)
    p = x.int("pitch")
    x.loop(GP + "#0", Up())
    x.loop(GP + "#1", Down())
    r = x.returns("returns", x.call(hu.get_pitch_string, p, pt))
    if pt == MIDI:
        x.check("MIDI name is one of the twelve", r in MIDI_NAMES)
        x.check("MIDI name is that of the pitch class", (p - MIDI_NAMES.index(r)) % 12 == 0)
        return
    adj, letter = read_tpc(r)
    x.check("spelled with an upper-case letter A-G", letter in FIFTHS)
    x.check("letter and accidentals encode the pitch", 14 + FIFTHS.index(letter) + 7 * adj == p)
    if not x.symbolic:
        x.check("no mixed accidentals", not ("#" in r and "b" in r[1:]))


def text(x):
    letter = x.choice("letter", LETTERS)
    sharp = x.choice("sign", [True, False])
    n = x.int("count", 0)
    return letter, (n if sharp else -n), letter + x.repeat("#" if sharp else "b", n)


@harness([HU + "get_pitch_from_string"])
def reading_contract(x):
    """letter + any number of sharps or flats: TPC = letter + 7*accidentals, refused exactly outside
    [0,35); MIDI = (letter + accidentals) mod 12."""
    accidental_contract(x)
    pt = x.choice("pitch_type", PITCH_TYPES)
    letter, acc, s = text(x)
    r = x.call(hu.get_pitch_from_string, s, pt)
    v = LETTER[pt][letter.upper()] + ACC[pt] * acc
    if pt == MIDI:
        rv = x.returns("MIDI reading returns", r)
        x.check("MIDI reading in [0,12)", x.and_(rv >= 0, rv < 12))
        x.check("MIDI reading congruent", (rv - v) % 12 == 0)
    elif r.ok:
        x.check("TPC reading", r.value == v)
        x.check("TPC reading in range", x.and_(r.value >= 0, r.value < 35))
    else:
        x.check("TPC refusal is a ValueError", r.raised(ValueError), repr(r))
        x.check("TPC refused only outside the range", x.or_(v < 0, v >= 35))


@harness([HU + "get_pitch_from_string", HU + "get_pitch_string"])
def round_trip(x):
    """number -> spelling -> number is the identity, for both pitch types and across them."""
    accidental_contract(x)
    x.loop(GP + "#0", Up())
    x.loop(GP + "#1", Down())
    src, dst = x.choice("from", PITCH_TYPES), x.choice("to", PITCH_TYPES)
    p = x.int("pitch", 0, NPITCH[src])
    s = x.returns("spelling returns", x.call(hu.get_pitch_string, p, src))
    q = x.returns("reading returns", x.call(hu.get_pitch_from_string, s, dst))
    x.check("result is a pitch of the target type", x.and_(q >= 0, q < NPITCH[dst]))
    if src == dst:
        x.check("round trip is the identity", q == p)
    elif src == TPC:
        x.check("TPC to MIDI: seven semitones per fifth from C", (q - 7 * (p - 15)) % 12 == 0)
    else:
        x.check("MIDI to TPC keeps the sounding pitch", (7 * (q - 15) - p) % 12 == 0)


@harness([HU + "get_pitch_string", HU + "get_pitch_from_string"])
def text_round_trip(x):
    """spelling -> number -> spelling is the identity for upper-case TPC spellings in range."""
    accidental_contract(x)
    x.loop(GP + "#0", Up())
    x.loop(GP + "#1", Down())
    letter, acc, s = text(x)
    r = x.call(hu.get_pitch_from_string, s, TPC)
    if r.ok:
        t = x.returns("spelling returns", x.call(hu.get_pitch_string, r.value, TPC))
        x.check("same spelling", t == letter.upper() + s[1:])
