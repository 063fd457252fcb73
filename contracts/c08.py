"""C08: metrical levels and score distances."""
from common import *
from fractions import Fraction
import numpy as np
import pandas as pd
from pyvc.instrument import LoopContract
from pyvc.sym import Unsupported
from pyvc.smt import INT, REAL
import harmonic_inference.utils.rhythmic_utils as ru
from harmonic_inference.data.corpus_constants import MEASURE_OFFSET, NOTE_ONSET_BEAT

RU = "harmonic_inference.utils.rhythmic_utils:"
LOOP = "utils.rhythmic_utils.get_range_length#0"


def lengths_spec(x, n, d):
    """(measure, beat, sub-beat) of n/d, as numerators over 2d."""
    compound = x.and_(n > 3, n % 3 == 0)
    return 2 * n, x.ite(compound, 6, 2), x.ite(compound, 2, 1)


@harness([RU + "get_metrical_level_lengths"])
def level_lengths(x):
    """Any n/d: compound (n > 3 and divisible by 3): beats of three d-ths, sub-beats of one; otherwise beats
    of one d-th, sub-beats of a half of it."""
    n = x.int("numerator", 1)
    d = x.int("denominator", 1)
    sig = x.decimal(n) + "/" + x.decimal(d)
    m, b, s = x.returns("returns", x.call(ru.get_metrical_level_lengths, sig))
    wm, wb, ws = lengths_spec(x, n, d)
    x.check("measure length", m * 2 * d == wm)
    x.check("beat length", b * 2 * d == wb)
    x.check("sub-beat length", s * 2 * d == ws)


@harness([RU + "get_metrical_level"])
def level_contract(x):
    """3 on multiples of the measure, else 2 on multiples of the beat, else 1 on multiples of the sub-beat, else 0."""
    d = x.choice("denominator", [1, 2, 4, 8, 16])
    if x.symbolic and x.mode_unroll is None:
        n = x.int("numerator", 1)
        M, B, S = x.real("M"), x.real("B"), x.real("S")
        x.assume(x.and_(M > 0, B > 0, S > 0))
        x.stub(ru, "get_metrical_level_lengths", lambda timesig: (M, B, S))
        beat = x.real("beat")
        r = x.returns("returns", x.call(ru.get_metrical_level, beat, {"timesig": x.decimal(n) + "/" + str(d)}))
        on_m, on_b, on_s = beat % M == 0, beat % B == 0, beat % S == 0
    else:
        n = x.choice("num", list(range(1, 17)) + [18, 21, 24, 27])
        wm, wb, ws = lengths_spec(x, n, d)
        M, B, S = Fraction(wm, 2 * d), Fraction(wb, 2 * d), Fraction(ws, 2 * d)
        if x.symbolic:
            beat = x.real("beat")
        else:
            q = x.choice("unit", [M, B, S, S / 2, S / 3, Fraction(1, 7), B * 2, B / 3])
            beat = q * x.int("multiple", 0, 30) + x.choice("shift", [0, 0, 0, S, B])
        r = x.returns("returns", x.call(ru.get_metrical_level, beat, {"timesig": f"{n}/{d}"}))
        on_m, on_b, on_s = beat % M == 0, beat % B == 0, beat % S == 0
    x.check("downbeat", x.iff(r == 3, on_m))
    x.check("beat", x.iff(r == 2, x.and_(x.not_(on_m), on_b)))
    x.check("sub-beat", x.iff(r == 1, x.and_(x.not_(on_m), x.not_(on_b), on_s)))
    x.check("lower", x.iff(r == 0, x.and_(x.not_(on_m), x.not_(on_b), x.not_(on_s))))


# ---- measures ------------------------------------------------------------------------------------
COLS = {"act_dur": "dur", MEASURE_OFFSET: "off", "next": "next"}


class _Mask:
    def __init__(self, v):
        self.v = v


class _McCol:
    def __eq__(self, v):
        return _Mask(v)

    __hash__ = None


class _Vals:
    def __init__(self, v):
        self.values = v


class Frame:
    """A measures table of any size, known only through its functional content: one row per measure;
    ghost position of each measure: position(next(m)) = position(m) + duration(m)."""

    def __init__(self, x, end):
        self.x, self.end = x, end
        self.loc = self

    def pos(self, m):
        return self.x.ufun("pos", REAL, m)

    def off(self, m):
        return self.x.ufun("off", REAL, m)

    def steps(self, m):
        return self.x.ufun("steps", INT, m)

    def __getitem__(self, k):
        x = self.x
        if isinstance(k, str):
            if k == "mc":
                return _McCol()
            raise Unsupported("column of the abstract measures table")
        if not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], _Mask)):
            raise Unsupported("lookup in the abstract measures table")
        m, cols = k[0].v, k[1]
        dur = x.ufun("dur", REAL, m)
        nxt = x.ufun("next", INT, m)
        # meaning of the ghost functions, at this measure
        x.assume(self.pos(nxt) == self.pos(m) + dur)
        x.assume(x.iff(self.steps(m) == 0, m == self.end))
        x.assume(x.implies(self.steps(m) > 0, x.and_(self.steps(nxt) == self.steps(m) - 1)))
        x.assume(self.steps(self.end) == 0)
        x.assume(x.iff(self.steps(nxt) == 0, nxt == self.end))
        d = {"dur": dur, "next": nxt, "off": self.off(m)}
        if isinstance(cols, str):
            return _Vals([d[COLS[cols]]])
        return _Vals([tuple(d[COLS[c]] for c in cols)])


class Walk(LoopContract):
    needs = ("length", "current_mc")

    def __init__(self, f, a, abeat):
        self.f, self.a, self.abeat = f, a, abeat

    def havoc(self, x, L):
        return {"current_mc": x.fresh_int("mc"), "length": x.fresh_real("len")}

    def inv(self, x, L):
        f, c = self.f, L["current_mc"]
        return [
            ("end still ahead", f.steps(c) >= 0),
            ("end found exactly at zero steps", x.iff(f.steps(c) == 0, c == f.end)),
            ("length so far", L["length"] == f.pos(c) - f.pos(self.a) - (self.abeat - f.off(self.a))),
        ]

    def variant(self, x, L):
        return self.f.steps(L["current_mc"])


def concrete_frame(x):
    """A real measures table, with skipped and repeated-free 'next' links and its position function."""
    n = x.choice("measures", [1, 2, 3, 5, 8])
    first = x.choice("first mc", [0, 1, 4])
    mcs = [first + i for i in range(n)]
    dur = [Fraction(x.choice(f"dur {i}", [1, 2, 3, 4, 5, 7]), x.choice(f"den {i}", [1, 2, 4, 8])) for i in range(n)]
    off = [x.choice(f"off {i}", [Fraction(0), Fraction(0), Fraction(1, 4), Fraction(3, 8)]) for i in range(n)]
    skip = [x.choice(f"skip {i}", [1, 1, 1, 2]) for i in range(n)]
    nxt = [mcs[i + skip[i]] if i + skip[i] < n else (mcs[i + 1] if i + 1 < n else None) for i in range(n)]
    df = pd.DataFrame({"mc": mcs, "act_dur": dur, MEASURE_OFFSET: off, "next": pd.Series(nxt, dtype=object)})
    return mcs, dur, off, nxt, df


def positions(x, mcs, dur, nxt, a):
    """Positions of the measures reached from a."""
    pos, m, p = {}, a, Fraction(0)
    while m is not None:
        pos[m] = p
        i = mcs.index(m)
        p += dur[i]
        m = nxt[i]
    return pos


@harness([RU + "get_range_length"])
def range_length(x):
    """Distance of two score positions = difference of their positions along the measure chain, negative
    when given backwards; any table, any number of measures between."""
    back = x.choice("backwards", [False, True])
    if x.symbolic:
        if x.mode_unroll is not None:
            raise Unsupported("no bounded form")
        a, b = x.int("a"), x.int("b")
        ab, bb = x.real("a beat"), x.real("b beat")
        x.assume(a <= b)
        x.assume(x.implies(a == b, ab <= bb))
        f = Frame(x, b)
        x.assume(f.steps(a) >= 0)
        x.loop(LOOP, Walk(f, a, ab))
        pa, pb = f.pos(a) + ab - f.off(a), f.pos(b) + bb - f.off(b)
        df = f
    else:
        mcs, dur, off, nxt, df = concrete_frame(x)
        a = x.choice("a", mcs)
        pos = positions(x, mcs, dur, nxt, a)
        b = x.choice("b", sorted(pos))
        ab = Fraction(x.int("a beat", 0, 12), 8)
        bb = Fraction(x.int("b beat", 0, 12), 8)
        if a == b and ab > bb:
            ab, bb = bb, ab
        pa, pb = pos[a] + ab - off[mcs.index(a)], pos[b] + bb - off[mcs.index(b)]
    p, q = (a, ab), (b, bb)
    x.note(p=p, q=q)
    if back:
        r = x.returns("backward returns", x.call(ru.get_range_length, q, p, df))
        x.check("backward distance is negative", r == pa - pb)
    else:
        r = x.returns("forward returns", x.call(ru.get_range_length, p, q, df))
        x.check("distance", r == pb - pa)


@harness([RU + "get_rhythmic_info_as_proportion_of_range"])
def proportions(x):
    """A note's onset, offset and duration relative to a range: (position - start)/length and so on."""
    given = x.choice("range length given", [False, True])
    if x.symbolic:
        s, e, m = x.int("start mc"), x.int("end mc"), x.int("note mc")
        sb, eb, nb = x.real("start beat"), x.real("end beat"), x.real("note beat")
        P = lambda p: x.ufun("P", REAL, p[0], p[1])  # noqa: E731
        x.stub(ru, "get_range_length", lambda p, q, measures: P(q) - P(p))
        dur = x.real("duration")
        df = None
        if x.mode_unroll is not None:
            raise Unsupported("no bounded form")
    else:
        mcs, durs, off, nxt, df = concrete_frame(x)
        for i in range(len(mcs) - 1):
            nxt[i] = mcs[i + 1]
        df["next"] = pd.Series(nxt, dtype=object)
        pos = positions(x, mcs, durs, nxt, mcs[0])
        s, e, m = x.choice("start", mcs), x.choice("end", mcs), x.choice("note", mcs)
        sb, eb, nb = [Fraction(x.int(f"b{i}", 0, 12), 8) for i in range(3)]
        P = lambda p: pos[p[0]] + p[1] - off[mcs.index(p[0])]  # noqa: E731
        dur = Fraction(x.int("d", 0, 12), 8)
    start, end = (s, sb), (e, eb)
    ln = P(end) - P(start)
    x.assume(ln != 0)
    note = {"mc": m, NOTE_ONSET_BEAT: nb, "duration": dur}
    args = (note, start, end, df) + ((ln,) if given else ())
    on, off_, d = x.returns("returns", x.call(ru.get_rhythmic_info_as_proportion_of_range, *args))
    x.check("onset", on * ln == P((m, nb)) - P(start))
    x.check("duration", d * ln == dur)
    x.check("offset", off_ * ln == P((m, nb)) - P(start) + dur)
