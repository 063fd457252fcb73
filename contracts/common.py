"""Shared specification vocabulary (independent of the repository's own constants)."""
from pyvc.spec import harness  # noqa: F401
from pyvc.engine import Outcome  # noqa: F401
from pyvc import sym  # noqa: F401

import harmonic_inference.utils.harmonic_constants as hc
import harmonic_inference.utils.harmonic_utils as hu
from harmonic_inference.data.data_types import (  # noqa: F401
    ALL_ONE_TYPE_REDUCTION,
    NO_REDUCTION,
    TRIAD_REDUCTION,
    ChordType,
    KeyMode,
    PieceType,
    PitchType,
)

HU = "harmonic_inference.utils.harmonic_utils:"
TPC, MIDI = PitchType.TPC, PitchType.MIDI
NPITCH = {TPC: 35, MIDI: 12}
C = {TPC: 15, MIDI: 0}
ACC = {TPC: 7, MIDI: 1}
REL_MIN, REL_MAX, REL_PAD = -14, 15, 5
KEY_MIN, KEY_MAX = -14, 15
PITCH_TYPES = [TPC, MIDI]
MODES = [KeyMode.MAJOR, KeyMode.MINOR]
TYPES = list(ChordType)
# A reduction of one's own: what it leaves are not the first types there are.
OWN_REDUCTION = {
    t: ChordType.MIN_MAJ7 if t.value >= 4 else ChordType.MINOR if t.value < 2 else ChordType.DIMINISHED for t in TYPES}
REDUCTIONS = [None, NO_REDUCTION, TRIAD_REDUCTION, ALL_ONE_TYPE_REDUCTION, OWN_REDUCTION]


# ---- contracts used at call sites (each is proved against its own body in C04/C05) ----
# ---- spellings --------------------------------------------------------------------------------------
LETTER = {
    TPC: {"F": 14, "C": 15, "G": 16, "D": 17, "A": 18, "E": 19, "B": 20},
    MIDI: {"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11},
}
LETTERS = list("ABCDEFGabcdefg")
SCALE = {
    KeyMode.MAJOR: {TPC: [0, 2, 4, -1, 1, 3, 5], MIDI: [0, 2, 4, 5, 7, 9, 11]},
    KeyMode.MINOR: {TPC: [0, 2, -3, -1, 1, -4, -2], MIDI: [0, 2, 3, 5, 7, 8, 10]},
}
ROMAN = ["I", "II", "III", "IV", "V", "VI", "VII"]
DEGREES = {}
for _i, _r in enumerate(ROMAN):
    DEGREES[_r] = DEGREES[_r.lower()] = DEGREES[str(_i + 1)] = _i
NUMERALS = ROMAN + [r.lower() for r in ROMAN]


def acc_spec(s, in_front=True):
    """Reference accidental reader: (sharps - flats, text without them); for concrete and symbolic text.

    In front: a run of flats (never consuming the whole text), then a run of sharps. At the end: mirrored.
    """
    if isinstance(s, str):
        t = s if in_front else s[::-1]
        nb = len(t) - len(t.lstrip("b"))
        if nb == len(t):
            nb -= 1
        t = t[nb:]
        ns = len(t) - len(t.lstrip("#"))
        t = t[ns:]
        if not t:
            raise IndexError("only accidentals")
        return ns - nb, (t if in_front else t[::-1])
    parts = list(s.parts) if in_front else list(reversed(s.parts))
    adj = 0
    runs = {"b": 0, "#": 0}
    stage = 0
    while parts:
        p = parts[0]
        if p[0] == "r" and p[1] == "b" and stage == 0 and len(parts) > 1:
            adj = adj - p[2]
            parts.pop(0)
            continue
        if p[0] == "r" and p[1] == "#" and len(parts) > 1:
            if parts[1][0] == "r" and not p[2] > 0:
                parts.pop(0)
                continue
            adj = adj + p[2]
            stage = 1
            parts.pop(0)
            continue
        if p[0] == "r" and p[1] == "b" and stage == 1 and not p[2] > 0:
            parts.pop(0)
            continue
        break
    rest = sym.Rope.make(parts if in_front else list(reversed(parts)))
    if isinstance(rest, str):
        # what is left is concrete: no further accidentals may follow in it
        a2, rest2 = acc_spec(rest, in_front)
        if stage == 1 and a2 < 0:
            return adj, rest
        return adj + a2, rest2
    if parts and parts[0][0] == "o":
        return adj, rest
    raise sym.Unsupported("accidental contract on this text shape")


def stub_everywhere(x, name, fn):
    """Use a callee contract in every module that imported the callee."""
    import sys

    if not x.symbolic:
        return
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith("harmonic_inference.") and name in vars(m):
            x.stub(m, name, fn)


def accidental_contract(x):
    stub_everywhere(x, "get_accidental_adjustment", lambda string, in_front=True: acc_spec(string, in_front))


def transpose_pitch_contract(x):
    def stub(pitch, interval, pitch_type):
        if pitch_type == MIDI:
            return (pitch + interval) % 12
        s = pitch + interval
        if s < 0 or s >= 35:
            raise ValueError("contract: outside of TPC range")
        return s

    stub_everywhere(x, "transpose_pitch", stub)


def interval_spec(text, prefixed, mode, pt):
    adj, core = acc_spec(text, prefixed)
    return SCALE[mode][pt][DEGREES[core]] + ACC[pt] * adj


def interval_contract(x):
    def stub(scale_degree, accidentals_prefixed, mode, pitch_type):
        adj, core = acc_spec(scale_degree, accidentals_prefixed)
        if core not in DEGREES:
            raise KeyError(core)
        return SCALE[mode][pitch_type][DEGREES[core]] + ACC[pitch_type] * adj

    stub_everywhere(x, "get_interval_from_scale_degree", stub)
