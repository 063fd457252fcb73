"""C26: a joint model is put together only from parts that fit, and has the settings it was asked for."""
from common import *
import argparse
import logging
import random
from fractions import Fraction
from pyvc.sym import Unsupported
import harmonic_inference.models.joint_model as jm

J = "harmonic_inference.models.joint_model:"
PARTS = ("ccm", "ctm", "csm", "ktm", "ksm", "icm")
SETTINGS = {
    "min_chord_change_prob": float, "max_no_chord_change_prob": float, "max_chord_length": Fraction, "min_key_change_prob": float,
    "max_no_key_change_prob": float, "beam_size": int, "max_chord_branching_factor": int, "target_chord_branch_prob": float,
    "max_key_branching_factor": int, "target_key_branch_prob": float, "hash_length": int, "ksm_exponent": float,
}
# What has to be the same: what one part gives and another takes.
FIT = [
    (("ccm", "INPUT_TYPE"), ("ctm", "INPUT_TYPE")),
    (("ccm", "INPUT_PITCH"), ("ctm", "PITCH_TYPE")),
    (("ccm", "OUTPUT_PITCH"), ("csm", "INPUT_CHORD_PITCH_TYPE")),
    (("csm", "OUTPUT_PITCH_TYPE"), ("csm", "INPUT_CHORD_PITCH_TYPE")),
    (("csm", "OUTPUT_PITCH_TYPE"), ("ksm", "INPUT_CHORD_PITCH_TYPE")),
    (("csm", "OUTPUT_PITCH_TYPE"), ("ktm", "INPUT_CHORD_PITCH_TYPE")),
    (("csm", "OUTPUT_PITCH_TYPE"), ("icm", "PITCH_TYPE")),
    (("ksm", "OUTPUT_PITCH_TYPE"), ("csm", "INPUT_KEY_PITCH_TYPE")),
    (("ksm", "OUTPUT_PITCH_TYPE"), ("ktm", "INPUT_KEY_PITCH_TYPE")),
    (("ksm", "OUTPUT_PITCH_TYPE"), ("ksm", "INPUT_KEY_PITCH_TYPE")),
]
NAMES = sorted({a for pair in FIT for a in pair})


class Part:
    pass


def some_parts(x):
    """Parts of the right classes (empty ones: nothing is computed)."""
    return {p: c.__new__(c) for p, c in ((p, x.choice("class of " + p, list(jm.MODEL_CLASSES[p]))) for p in PARTS)}


def given(x, parts, value):
    for part, name in NAMES:
        setattr(parts[part], name, value(part, name))


def built(x, parts, **kw):
    logging.disable(logging.CRITICAL)
    try:
        return x.call(jm.HarmonicInferenceModel, parts, **kw)
    finally:
        logging.disable(logging.NOTSET)


def agree(x, parts):
    return x.and_(*[getattr(parts[a], n) == getattr(parts[b], m) for (a, n), (b, m) in FIT])


@harness([J + "HarmonicInferenceModel.check_input_output_types", J + "HarmonicInferenceModel.__init__"], samples=400)
def parts_fit(x):
    """Accepted exactly when every part takes what the others give: same inputs, same pitch types of chords and of keys.
    Complete: every combination of types."""
    parts = some_parts(x)
    if x.symbolic:
        inputs = x.choice("inputs", [(PieceType.SCORE, PieceType.SCORE), (PieceType.SCORE, PieceType.MIDI), (PieceType.MIDI, PieceType.SCORE)])
        inputs = dict(zip(("ccm", "ctm"), inputs))
        given(x, parts, lambda p, n: inputs[p] if n == "INPUT_TYPE" else x.choice(f"{p}.{n}", PITCH_TYPES))
    else:
        rng = random.Random(x.int("seed", 0, 10 ** 6))
        one = rng.choice([PieceType.SCORE, PieceType.MIDI])
        two, three, four = (rng.choice(PITCH_TYPES) for _ in range(3))

        def kind(p, n):
            if n == "INPUT_TYPE":
                return one
            if (p, n) in (("ccm", "INPUT_PITCH"), ("ctm", "PITCH_TYPE")):
                return two
            return four if "KEY" in n or (p, n) == ("ksm", "OUTPUT_PITCH_TYPE") else three

        other = {TPC: MIDI, MIDI: TPC, PieceType.SCORE: PieceType.MIDI, PieceType.MIDI: PieceType.SCORE}
        wrong = rng.sample(NAMES, rng.choice([0, 1, 1, 2]))
        given(x, parts, lambda p, n: kind(p, n) if (p, n) not in wrong else other[kind(p, n)])
    r = built(x, parts)
    if r.raised(AssertionError):
        x.check("refused only when parts do not fit", x.not_(agree(x, parts)))
        return
    x.returns("no other error", r)
    x.check("accepted only when all parts fit", agree(x, parts))


def fitting(x, parts):
    chords, keys = x.choice("chord pitches", PITCH_TYPES), x.choice("key pitches", PITCH_TYPES)

    def value(part, name):
        if name == "INPUT_TYPE":
            return PieceType.SCORE
        return keys if "KEY" in name or (part, name) == ("ksm", "OUTPUT_PITCH_TYPE") else chords

    given(x, parts, value)
    return chords, keys


def number(x, name):
    if SETTINGS[name] is int:
        return x.int(name, 1)
    if x.symbolic:
        return x.real(name)
    v = Fraction(x.choice(name, range(0, 17)), 16)
    return v if SETTINGS[name] is Fraction else float(v)


@harness([J + "HarmonicInferenceModel.__init__", J + "from_args"], samples=300)
def settings_kept(x):
    """Built with the settings given (directly or as parsed arguments), each where it belongs, from parts that fit; refused
    exactly when a probability could be neither of a change nor of none, or a part is missing or of another kind."""
    parts = some_parts(x)
    chords, keys = fitting(x, parts)
    v = {n: number(x, n) for n in SETTINGS}
    if x.choice("beam not hashed", [False, True]):
        v["hash_length"] = None
    lost = x.choice("part", [None, None, *PARTS] if not x.symbolic else [None, *PARTS])
    if lost is not None:
        if x.choice("missing", [True, False]):
            del parts[lost]
        else:
            parts[lost] = Part()
    if x.choice("parsed arguments", [True, False]):
        logging.disable(logging.CRITICAL)
        try:
            r = x.call(jm.from_args, parts, argparse.Namespace(**v, unrelated=3))
        finally:
            logging.disable(logging.NOTSET)
    else:
        r = built(x, parts, **v)
    possible = x.and_(
        lost is None, v["min_chord_change_prob"] <= v["max_no_chord_change_prob"], v["min_key_change_prob"] <= v["max_no_key_change_prob"])
    if r.raised(AssertionError):
        x.check("refused only then", x.not_(possible))
        return
    m = x.returns("no other error", r)
    x.check("refused then", possible)
    for n in SETTINGS:
        x.check("as asked for: " + n, getattr(m, n) == v[n])
    x.check("its parts", (m.chord_classifier, m.chord_transition_model, m.chord_sequence_model, m.key_transition_model,
                          m.key_sequence_model, m.initial_chord_model) == tuple(parts[p] for p in PARTS))
    x.check("its types", (m.INPUT_TYPE, m.CHORD_OUTPUT_TYPE, m.KEY_OUTPUT_TYPE) == (PieceType.SCORE, chords, keys))


@harness([J + "HarmonicInferenceModel.__init__"], samples=20)
def labels_kept(x):
    """The labels of a model: all chords and keys of its pitch types in the order of their indexes, and the key changes in the
    order of theirs. Complete: every pair of pitch types."""
    parts = some_parts(x)
    chords, keys = fitting(x, parts)
    m = x.returns("builds", built(x, parts))
    x.check("chords", [tuple(c) for c in m.LABELS["chord"]] == [
        (r, t, i) for t in TYPES for r in range(NPITCH[chords]) for i in range(3 if TYPES.index(t) < 4 else 4)])
    x.check("keys", [tuple(k) for k in m.LABELS["key"]] == [(t, md) for md in MODES for t in range(NPITCH[keys])])
    x.check("key changes", [tuple(k) for k in m.LABELS["relative_key"]] == [
        (md, t) for md in MODES for t in (range(12) if keys == MIDI else range(KEY_MIN, KEY_MAX))])
    first = m.min_chord_change_prob <= m.max_no_chord_change_prob and m.min_key_change_prob <= m.max_no_key_change_prob
    x.check("by default: nothing is neither", first and m.beam_size > 0 and m.max_chord_branching_factor > 0)


def unreadable(message):
    raise ValueError(message)


@harness([J + "add_joint_model_args", J + "from_args"], kind="bounded", symbolic=False, samples=150, bound="random command lines")
def command_line(x):
    """Settings on the command line (any of them, in any order; lists of them for a grid search) arrive in the model; the others
    have the default of a model built without settings."""
    parts = some_parts(x)
    fitting(x, parts)
    rng = random.Random(x.int("seed", 0, 10 ** 6))
    grid = rng.random() < 0.3
    p = argparse.ArgumentParser()
    x.returns("adds its arguments", x.call(jm.add_joint_model_args, p, **({"grid_search": True} if grid else {})))
    default = x.returns("builds", built(x, parts))
    asked, line = {}, []
    for n in rng.sample(list(SETTINGS), rng.randrange(len(SETTINGS) + 1)):
        vs = [SETTINGS[n](rng.randrange(1, 9)) if SETTINGS[n] is int else SETTINGS[n](Fraction(rng.randrange(0, 17), 16))
              for _ in range(rng.choice([1, 2, 3]) if grid else 1)]
        asked[n] = vs if grid else vs[0]
        line += ["--" + n.replace("_", "-"), *map(str, vs)]
    p.error = unreadable
    args = x.returns("the line is read", x.call(p.parse_args, line))
    for n in SETTINGS:
        x.check("read: " + n, getattr(args, n) == asked.get(n, getattr(default, n)))
        if n in asked:
            one = asked[n][0] if grid else asked[n]
            x.check("as a number", type(getattr(args, n)[0] if grid else getattr(args, n)) is type(one))
    if grid:
        return
    ok = args.min_chord_change_prob <= args.max_no_chord_change_prob and args.min_key_change_prob <= args.max_no_key_change_prob
    logging.disable(logging.CRITICAL)
    try:
        r = x.call(jm.from_args, parts, args)
    finally:
        logging.disable(logging.NOTSET)
    if not ok:
        x.check("refused", r.raised(AssertionError))
        return
    m = x.returns("builds", r)
    for n in SETTINGS:
        x.check("in the model: " + n, getattr(m, n) == asked.get(n, getattr(default, n)))
