"""C05: accidentals, scale degrees and intervals."""
from common import *
from pyvc.instrument import LoopContract
from pyvc.sym import Rope


class StripRun(LoopContract):
    """Loop that strips one run of `ch` (count n, direction per in_front), adding `sign` for each."""

    needs = ("string", "adjustment")

    def __init__(self, ch, sign, n, rest_front, rest_back, base):
        self.ch, self.sign, self.n = ch, sign, n
        self.a, self.b, self.base = rest_front, rest_back, base

    def text(self, left):
        return Rope.make(self.a + [("r", self.ch, left)] + self.b)

    def havoc(self, x, L):
        left = x.fresh_int("left")
        x.assume(x.and_(left >= 0, left <= self.n))
        return {"string": self.text(left), "adjustment": self.base + self.sign * (self.n - left)}

    def inv(self, x, L):
        # adjustment tells how many were stripped; the text must be exactly what is left
        done = self.sign * (L["adjustment"] - self.base)
        return [
            ("stripped count within the run", x.and_(done >= 0, done <= self.n)),
            ("text is the unread remainder", L["string"] == self.text(self.n - done)),
        ]

    def variant(self, x, L):
        return self.n - self.sign * (L["adjustment"] - self.base)


GA = "utils.harmonic_utils.get_accidental_adjustment"


@harness([HU + "get_accidental_adjustment"])
def accidental_reader(x):
    """For every text: flats^n sharps^m core (or core sharps^m flats^n) reads as (m - n, core)."""
    front = x.choice("in_front", [True, False])
    n, m = x.int("flats", 0), x.int("sharps", 0)
    kind = x.choice("core", ["plain", "b-led"])
    if kind == "b-led":
        x.assume(m > 0)
        # with sharps in between, the core may itself begin (end) with the letter b
        core = x.opaque("text", first_not="#", last_not="#", pool=["b5", "bX", "bb7b"] if front else ["5b", "Xb", "b"])
    else:
        core = x.opaque(
            "text",
            first_not="b#",
            last_not="b#",
            pool=["VI", "iv", "7", "C", "G", "xb#y", "13", "v2", "Z"],
        )
    fl, sh = x.repeat("b", n), x.repeat("#", m)
    s = fl + sh + core if front else core + sh + fl
    if x.symbolic:
        cp = core.parts
        S, Fl = [("r", "#", m)], []
        if front:
            x.loop(GA + "#0", StripRun("b", -1, n, [], S + cp, 0))
            x.loop(GA + "#1", StripRun("#", 1, m, [], cp, -n))
        else:
            x.loop(GA + "#2", StripRun("b", -1, n, cp + S, [], 0))
            x.loop(GA + "#3", StripRun("#", 1, m, cp, [], -n))
    r = x.returns("returns", x.call(hu.get_accidental_adjustment, s, in_front=front))
    x.check("adjustment is sharps minus flats", r[0] == m - n)
    x.check("remaining text is exactly the core", r[1] == core)


@harness([HU + "get_accidental_adjustment"])
def accidental_reader_all_flats(x):
    """A text of only b's is the note name b followed (preceded) by flats: one b is kept."""
    front = x.choice("in_front", [True, False])
    n = x.int("bs", 1)
    s = x.repeat("b", n)
    if x.symbolic:

        class Only(StripRun):
            def havoc(self, x, L):
                left = x.fresh_int("left")
                x.assume(x.and_(left >= 1, left <= self.n))
                return {"string": self.text(left), "adjustment": self.base + self.sign * (self.n - left)}

            def inv(self, x, L):
                done = self.sign * (L["adjustment"] - self.base)
                return [
                    ("at least one b kept", x.and_(done >= 0, done <= self.n - 1)),
                    ("text is the unread remainder", L["string"] == self.text(self.n - done)),
                ]

        x.loop(GA + ("#0" if front else "#2"), Only("b", -1, n, [], [], 0))
    r = x.returns("returns", x.call(hu.get_accidental_adjustment, s, in_front=front))
    x.check("adjustment counts all but one b", r[0] == 1 - n)
    x.check("remaining text is the note name b", r[1] == "b")


def degree_text(x, prefixed, degs):
    d = x.choice("degree", degs)
    n, m = x.int("flats", 0), x.int("sharps", 0)
    fl, sh = x.repeat("b", n), x.repeat("#", m)
    return d, m - n, (fl + sh + d) if prefixed else (d + sh + fl)


@harness([HU + "get_interval_from_scale_degree"])
def interval_of_degree(x):
    """Interval of an altered scale degree: diatonic interval of the mode + one accidental step per sign."""
    accidental_contract(x)
    pt, mode = x.choice("pitch_type", PITCH_TYPES), x.choice("mode", MODES)
    pre = x.choice("prefixed", [True, False])
    d, acc, s = degree_text(x, pre, list(DEGREES))
    r = x.returns("returns", x.call(hu.get_interval_from_scale_degree, s, pre, mode, pt))
    x.check("diatonic interval plus accidentals", r == SCALE[mode][pt][DEGREES[d]] + ACC[pt] * acc)


@harness([HU + "get_interval_from_numeral"])
def interval_of_numeral(x):
    """Same, through the Roman-numeral entry point (which may only rely on the scale-degree contract)."""
    interval_contract(x)
    pt, mode = x.choice("pitch_type", PITCH_TYPES), x.choice("mode", MODES)
    d, acc, s = degree_text(x, True, list(DEGREES))
    r = x.returns("returns", x.call(hu.get_interval_from_numeral, s, mode, pt))
    x.check("diatonic interval plus accidentals", r == SCALE[mode][pt][DEGREES[d]] + ACC[pt] * acc)


class Climb(LoopContract):
    """while interval < range_min: num_flats += 1; interval += 7"""

    needs = ("interval", "num_flats", "range_min")

    def havoc(self, x, L):
        f = x.fresh_int("flats")
        return {"num_flats": f, "interval": L["_entry"]["interval"] + 7 * f}

    def inv(self, x, L):
        i0, f0 = L["_entry"]["interval"], L["_entry"]["num_flats"]
        i, f = L["interval"], L["num_flats"]
        return [
            ("each flat is seven fifths", i == i0 + 7 * (f - f0)),
            ("flats only while below the scale", x.or_(f == f0, x.and_(f > f0, i - 7 < L["range_min"]))),
        ]

    def variant(self, x, L):
        return L["range_min"] - L["interval"] + 7


class Descend(LoopContract):
    needs = ("interval", "num_sharps", "range_max")

    def havoc(self, x, L):
        s = x.fresh_int("sharps")
        return {"num_sharps": s, "interval": L["_entry"]["interval"] - 7 * s}

    def inv(self, x, L):
        i0, f0 = L["_entry"]["interval"], L["_entry"]["num_sharps"]
        i, f = L["interval"], L["num_sharps"]
        return [
            ("each sharp is seven fifths", i == i0 - 7 * (f - f0)),
            ("sharps only while above the scale", x.or_(f == f0, x.and_(f > f0, i + 7 > L["range_max"]))),
        ]

    def variant(self, x, L):
        return L["interval"] - L["range_max"] + 7


GS = "utils.harmonic_utils.get_scale_degree_from_interval"


@harness([HU + "get_scale_degree_from_interval"])
def degree_of_interval(x):
    """Spelling an interval and reading it back gives the interval (exactly for TPC, mod 12 for MIDI)."""
    pt, mode = x.choice("pitch_type", PITCH_TYPES), x.choice("mode", MODES)
    i = x.int("interval")
    x.loop(GS + "#1", Climb())
    x.loop(GS + "#2", Descend())
    r = x.returns("returns", x.call(hu.get_scale_degree_from_interval, i, mode, pt))
    adj, core = acc_spec(r)
    x.check("ends in an upper-case Roman numeral", core in ROMAN)
    back = SCALE[mode][pt][ROMAN.index(core)] + ACC[pt] * adj
    if pt == TPC:
        x.check("spelled interval is the interval", back == i)
    else:
        x.check("spelled interval is the interval modulo the octave", (back - i) % 12 == 0)
        x.check("MIDI spellings use at most two sharps and no flats", x.and_(adj >= 0, adj <= 2))
    if isinstance(r, str):
        x.check("never mixes sharps and flats", not ("#" in r and "b" in r))


@harness([HU + "get_scale_degree_from_interval", HU + "get_interval_from_numeral"])
def degree_round_trip(x):
    """End to end on the real pair of functions: numeral(interval) reads back as the interval."""
    accidental_contract(x)
    pt, mode = x.choice("pitch_type", PITCH_TYPES), x.choice("mode", MODES)
    i = x.int("interval")
    x.loop(GS + "#1", Climb())
    x.loop(GS + "#2", Descend())
    r = x.returns("spelling returns", x.call(hu.get_scale_degree_from_interval, i, mode, pt))
    b = x.returns("reading returns", x.call(hu.get_interval_from_numeral, r, mode, pt))
    if pt == TPC:
        x.check("round trip exact", b == i)
    else:
        x.check("round trip modulo the octave", (b - i) % 12 == 0)
