"""C18: what the user forces is in the analysis, or refused; and the models are asked about this piece."""
from common import *
from argparse import ArgumentError
from fractions import Fraction
import importlib.util
import json
import os
import random
import sys
import tempfile
import types
import numpy as np
import pandas as pd
import c17
import forces as fg
import search as ghosts
from pyvc.sym import Unsupported
from c17 import FakeCSM, FakeKSM, FakeKTM, ICM, TorchStandIn, loader, number, reduced, segments, t, vector
import harmonic_inference.data.datasets as ds
import harmonic_inference.models.joint_model as jm
import harmonic_inference.utils.beam_search_utils as bsu
import harmonic_inference.utils.harmonic_utils as hu
import harmonic_inference.utils.rhythmic_utils as ru
from harmonic_inference.data.chord import get_chord_vector_length
from harmonic_inference.data.data_types import PieceType
from harmonic_inference.data.note import Note
from harmonic_inference.data.piece import ScorePiece, get_range_start

JM = "harmonic_inference.models.joint_model:HarmonicInferenceModel."
KINDS = ("chord", "key")
LIMITS = {}


class O:
    def __init__(self, **k):
        self.__dict__.update(k)


# ---- which forces are refused -----------------------------------------------------------------------
def random_forces(rng, n, size, density):
    """size: number of labels per kind."""
    out = {}
    for kind in KINDS:
        for name in ("changes", "non_changes"):
            q = rng.choice([0, density, density])
            out[f"forced_{kind}_{name}"] = {i for i in range(0 if name == "changes" else 1, n + (rng.random() < 0.05)) if rng.random() < q}
        labels = {}
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            a = rng.randrange(n)
            pool = [0, size[kind] - 1, size[kind] // 2, 7]
            labels[(a, min(n, a + rng.choice([1, 1, 2, 3])))] = rng.choice(pool) if rng.random() < 0.96 else rng.choice([-1, size[kind]])
        out[f"forced_{kind}s"] = labels
    return out


def labels_of(forces, kind, n):
    out = [-1] * n
    for (a, b), v in forces[f"forced_{kind}s"].items():
        for i in range(a, min(b, n)):
            out[i] = v
    return out


def contradictory(forces, durations, size):
    """Whether the forces cannot all hold in this piece."""
    n = len(durations)
    ids = {kind: labels_of(forces, kind, n) for kind in KINDS}
    get = {(kind, name): set(forces[f"forced_{kind}_{name}"]) - {0} for kind in KINDS for name in ("changes", "non_changes")}
    same = lambda kind, i: ids[kind][i] == ids[kind][i - 1] != -1  # noqa: E731
    differ = lambda kind, i: -1 not in ids[kind][i - 1: i + 1] and ids[kind][i] != ids[kind][i - 1]  # noqa: E731
    for kind in KINDS:
        ch, non = get[kind, "changes"], get[kind, "non_changes"]
        if any(i >= n for i in ch | non) or ch & non:
            return True
        if any(durations[i - 1] == 0 for i in ch):
            return True
        for (a, b), v in forces[f"forced_{kind}s"].items():
            if not 0 <= v < size[kind]:
                return True
            for (a2, b2), v2 in forces[f"forced_{kind}s"].items():
                if v2 != v and max(a, a2) < min(b, b2):
                    return True
        if any(same(kind, i) for i in ch) or any(differ(kind, i) for i in non):
            return True
    if get["key", "changes"] & get["chord", "non_changes"]:
        return True
    return any(same("chord", i) for i in get["key", "changes"]) or any(differ("key", i) for i in get["chord", "non_changes"])


def copied(forces):
    return {k: (set(v) if isinstance(v, set) else dict(v)) for k, v in forces.items()}


@harness([JM + "_validate_and_load_forced_labels"], kind="bounded", symbolic=False, samples=1500, max_seconds=40,
         bound="random forces on pieces of at most 6 inputs")
def refused(x):
    """Forces are refused exactly when they contradict each other or the piece: an index beyond the piece or not first at
    its position, a label that does not exist, two labels for one input, a change between equal forced labels, none between
    different ones, or a key change where the chord may not change. Otherwise every input has its forced labels."""
    pt = x.choice("pitch type", PITCH_TYPES)
    inversions, reduction = x.choice("labels", [
        (True, None), (False, None), (True, TRIAD_REDUCTION), (False, TRIAD_REDUCTION), (True, OWN_REDUCTION), (False, OWN_REDUCTION)])
    rng = random.Random(x.int("seed", 0, 10 ** 6))
    n = rng.randrange(1, 7)
    durations = np.array([Fraction(rng.choice([0, 1, 1, 2]), 4) for _ in range(n)])
    key = (pt, inversions, str(reduction))
    if key not in LIMITS:
        LIMITS[key] = len(hu.get_chord_label_list(pt, use_inversions=inversions, reduction=reduction))
    size = {"chord": LIMITS[key], "key": 2 * NPITCH[pt]}
    forces = random_forces(rng, n, size, rng.choice([0.1, 0.3, 0.6]))
    x.note(forces={k: sorted(v.items() if isinstance(v, dict) else v) for k, v in forces.items()}, durations=[str(d) for d in durations])
    m = object.__new__(jm.HarmonicInferenceModel)
    m.__dict__.update(copied(forces))
    m.__dict__.update(
        duration_cache=durations, forced_chord_ids=np.full(n, -1), forced_key_ids=np.full(n, -1),
        chord_classifier=O(OUTPUT_PITCH=pt, use_inversions=inversions, reduction=reduction), key_sequence_model=O(OUTPUT_PITCH_TYPE=pt),
    )
    r = x.call(m._validate_and_load_forced_labels)
    bad = contradictory(forces, durations, size)
    x.check("refused exactly when contradictory", (not r.ok) == bad)
    if not r.ok:
        x.check("with a message", r.raised(ArgumentError) and bool(r.exc.message))
        return
    for kind in KINDS:
        x.check(f"{kind} labels of the inputs", list(getattr(m, f"forced_{kind}_ids")) == labels_of(forces, kind, n))
        x.check("a change at the beginning is ignored", getattr(m, f"forced_{kind}_changes") == forces[f"forced_{kind}_changes"] - {0})


# ---- the whole analysis -----------------------------------------------------------------------------
def read(batch):
    """The inputs of each item of a batch, without the padding."""
    return [np.asarray(v, dtype=float)[: int(k)] for v, k in zip(batch["inputs"], batch["input_lengths"])]


class FakeCTM:
    def __init__(self):
        self.asked = []

    def get_output(self, batch):
        rows = read(batch)
        self.asked.append(rows)
        width = max(len(r) for r in batch["inputs"])
        out = np.zeros((len(rows), width))
        for i, item in enumerate(rows):
            for j, row in enumerate(item):
                out[i, j] = 0.05 + 0.9 * (number(row.tobytes()) / 2 ** 32)
        return t(out), [len(r) for r in rows]


class FakeCCM:
    use_inversions, reduction, INPUT_TYPE = True, None, PieceType.SCORE

    def __init__(self, pt, size, pool):
        self.OUTPUT_PITCH, self.size, self.pool, self.asked = pt, size, pool, []

    def get_dataset_kwargs(self):
        return {"reduction": None, "use_inversions": True, "transposition_range": [-2, 3]}

    def one(self, rows):
        rng = np.random.RandomState(number(np.asarray(rows).tobytes()) % 2 ** 32)
        v = np.full(self.size, 1e-7)
        v[self.pool] = rng.rand(len(self.pool)) ** 2 + 1e-3
        return v / v.sum()

    def get_output(self, batch):
        rows = read(batch)
        self.asked.extend(rows)
        return [t(self.one(r)) for r in rows]


def a_piece(rng, pt, n):
    notes, at = [], Fraction(0)
    for i in range(n):
        if i:
            at += Fraction(rng.choice([0, 1, 1, 2, 3]), 16)
        dur = Fraction(rng.choice([1, 2, 4]), 16)
        off = at + dur
        place = lambda u: (int(u), u - int(u))  # noqa: E731
        notes.append(Note(rng.randrange(12, 20) if pt == TPC else rng.randrange(12), rng.randrange(2, 6), place(at), rng.randrange(4),
                          dur, place(off), rng.randrange(4), pt))
    mcs = list(range(0, int(at + 2) + 1))
    df = pd.DataFrame({
        "mc": mcs, "act_dur": [Fraction(1)] * len(mcs), ru.MEASURE_OFFSET: [Fraction(0)] * len(mcs), "timesig": ["4/4"] * len(mcs),
        "next": mcs[1:] + [None],
    })
    df["next"] = df["next"].astype(object).where(df["next"].notnull(), None)
    return ScorePiece(df, notes, None, None, None, None, None)


def world(x, rng, n, pts):
    pt = x.choice("pitch type", pts)
    labels = c17.LABELS.setdefault(pt, {}) or {
        "chord": hu.get_chord_from_one_hot_index(slice(None, None), pt),
        "key": hu.get_key_from_one_hot_index(slice(None, None), pt),
        "relative_key": [(m, i) for m in KeyMode for i in (range(-14, 15) if pt == TPC else range(12))],
    }
    c17.LABELS[pt] = labels
    pool = [
        i for i, (r, ty, inv) in enumerate(labels["chord"])
        if (pt == MIDI or 11 <= r <= 19) and inv < 2 and ty in (TYPES[0], TYPES[1], TYPES[5])
    ]
    pool = rng.sample(pool, 4)
    near = [i for i, (tonic, m) in enumerate(labels["key"]) if pt == MIDI or 12 <= tonic <= 18]
    ktm, ksm, csm = FakeKTM(b"t", None, True), FakeKSM(b"s", None, True), FakeCSM(b"q", None, True)
    ktm.scale = lambda v: v
    ksm.size = len(labels["relative_key"])
    ksm.OUTPUT_PITCH_TYPE = pt
    csm.size = get_chord_vector_length(pt, one_hot=True, relative=True, use_inversions=True, pad=False, reduction=None)
    m = object.__new__(jm.HarmonicInferenceModel)
    m.__dict__.update(
        LABELS=labels, INPUT_TYPE=PieceType.SCORE, CHORD_OUTPUT_TYPE=pt, KEY_OUTPUT_TYPE=pt, min_key_change_prob=0.05,
        max_no_key_change_prob=0.9, max_chord_branching_factor=3, target_chord_branch_prob=0.95, max_key_branching_factor=3,
        target_key_branch_prob=0.9, ksm_exponent=1, beam_size=x.choice("beam size", [5, 50]),
        hash_length=x.choice("hash length", [None, 3]), min_chord_change_prob=0.2, max_no_chord_change_prob=0.8,
        max_chord_length=Fraction(x.choice("longest chord", [1, 4, 100]), 4), current_piece=None, debugger=None,
        key_transition_model=ktm, key_sequence_model=ksm, chord_sequence_model=csm, chord_transition_model=FakeCTM(),
        initial_chord_model=ICM([vector(csm.size, 1, i, rng.randrange(10 ** 6)) for i in range(2)]),
        chord_classifier=FakeCCM(pt, len(labels["chord"]), pool),
    )
    return pt, m, pool, near


def sensible_forces(rng, n, pool, near):
    """Mostly satisfiable forces."""
    forces = {"forced_chords": {}, "forced_keys": {}}
    for kind in KINDS:
        for name in ("changes", "non_changes"):
            q = rng.choice([0, 0.25, 0.4]) * (0.6 if kind == "key" and name == "changes" else 1)
            forces[f"forced_{kind}_{name}"] = {i for i in range(1, n) if rng.random() < q}
        forces[f"forced_{kind}_non_changes"] -= forces[f"forced_{kind}_changes"]
        for _ in range(rng.choice([0, 1, 2])):
            a = rng.randrange(n)
            forces[f"forced_{kind}s"][(a, min(n, a + rng.choice([1, 2])))] = rng.choice(pool if kind == "chord" else near)
    forces["forced_chord_non_changes"] -= forces["forced_key_changes"]
    if rng.random() < 0.8:  # fewer keys to search
        forces["forced_keys"] = {r: v for r, v in forces["forced_keys"].items() if r[0] > 0}
        forces["forced_keys"][(0, 1)] = rng.choice(near)
    for k in list(forces):
        if rng.random() < (0.15 if k == "forced_keys" else 0.3):
            del forces[k]
    return forces


WHOLE = dict(
    kind="bounded", symbolic=False, samples=350, max_seconds=60,
    bound="random pieces of at most 8 notes in 4/4, stand-in models that answer by what they are given",
)
PARTS = [JM + n for n in (
    "get_harmony", "get_chord_change_probs", "_apply_forced_chord_changes", "get_chord_classifications",
    "_validate_and_load_forced_labels", "get_chord_ranges", "beam_search")]


def whole(x, pts, sizes):
    rng = random.Random(x.int("seed", 0, 10 ** 6))
    n = x.choice("notes", sizes)
    pt, m, pool, near = world(x, rng, n, pts)
    piece = a_piece(rng, pt, n)
    durations = piece.get_duration_cache()
    forces = sensible_forces(rng, n, pool, near)
    for k in [k for k in forces if k.endswith("_changes")]:  # mostly only where a change is possible
        if "non" not in k and rng.random() < 0.9:
            forces[k] = {i for i in forces[k] if durations[i - 1] != 0}
    full = {k: forces.get(k, {} if k.endswith("s") and "changes" not in k else set()) for k in (
        "forced_chords", "forced_keys", *(f"forced_{a}_{b}" for a in KINDS for b in ("changes", "non_changes")))}
    x.note(forces={k: sorted(v.items() if isinstance(v, dict) else v) for k, v in full.items()}, durations=[str(d) for d in durations])
    searched = []
    search = m.beam_search

    def recorded(*a, **k):
        searched.append((a, k, search(*a, **k)))
        return searched[-1][2]

    m.beam_search = recorded
    old = jm.DataLoader, jm.torch, jm.tqdm
    batch = x.choice("batch", [1, 3, 64])
    jm.DataLoader, jm.torch, jm.tqdm = c18_loader(batch), TorchStandIn, lambda it, **k: it
    slow = vars(bsu).get("reduce_chord_one_hots")
    if slow is not None:
        bsu.reduce_chord_one_hots = reduced
    try:
        with np.errstate(all="ignore"):
            r = x.call(m.get_harmony, piece, **copied(forces))
    finally:
        jm.DataLoader, jm.torch, jm.tqdm = old
        if slow is not None:
            bsu.reduce_chord_one_hots = slow
    bad = contradictory(full, durations, {"chord": len(m.LABELS["chord"]), "key": 2 * NPITCH[pt]})
    if bad:
        x.check("refused", r.raised(ArgumentError))
        return
    state = x.returns("returns", r)
    # what the models were asked
    notes = [
        note.to_vec(dur_from_prev=a, dur_to_next=b)
        for note, a, b in zip(piece.get_inputs(), [None] + list(durations), durations)
    ]
    asked = m.chord_transition_model.asked
    x.check("chord changes asked for this piece's notes", len(asked) == 1 and len(asked[0]) == 1 and np.array_equal(asked[0][0], np.vstack(notes)))
    probs = m.chord_transition_model.get_output({"inputs": [np.vstack(notes)], "input_lengths": [n]})[0][0].numpy().copy()
    for i in full["forced_chord_changes"] | full["forced_key_changes"]:
        probs[i] = 1.0
    for i in full["forced_chord_non_changes"]:
        probs[i] = 0.0
    with np.errstate(all="ignore"):
        ranges, lps, rejoins = m.get_chord_ranges(probs)
    x.check("searched once", len(searched) == 1)
    args = dict(zip(("chord_ranges", "range_log_probs", "rejoin_log_probs", "chord_classifications"), searched[0][0]))
    args.update(searched[0][1])
    x.check("the possible ranges", [tuple(map(int, v)) for v in args["chord_ranges"]] == [tuple(map(int, v)) for v in ranges])
    x.check("their probabilities", np.allclose(args["range_log_probs"], lps) and np.allclose(args["rejoin_log_probs"], rejoins, equal_nan=True))
    windows = [(get_range_start(piece.get_inputs()[a].onset, piece.get_inputs()), b) for a, b in ranges]
    seen = piece.get_chord_note_inputs(ranges=windows, change_indices=[a for a, _ in ranges])
    x.check("classified the windows of the ranges", len(seen) == len(m.chord_classifier.asked)
            and all(np.array_equal(np.asarray(a, dtype=float), b) for a, b in zip(seen, m.chord_classifier.asked)))
    want = np.log([m.chord_classifier.one(b) for b in m.chord_classifier.asked])
    x.check("their classifications", np.allclose(args["chord_classifications"], want))
    ins = piece.get_inputs()
    for name, last in (("onset", "offset"), ("onset_level", "offset_level")):
        cache = getattr(m, name + "_cache", None)
        if isinstance(cache, list):
            x.check("positions of the inputs and of the end", cache == [getattr(v, name) for v in ins] + [getattr(ins[-1], last)])
    x.check("returns what is found", state is searched[0][2])
    x.check("the piece is let go", m.current_piece is None)
    if state is None:
        return
    k0, segs, _ = segments(state)
    x.note(analysis=(k0, segs, float(state.log_prob)))
    chord = [s[2] for s in segs for _ in range(s[0], s[1])]
    key = [s[3] for s in segs for _ in range(s[0], s[1])]
    starts = {s[0] for s in segs}
    for name, got in (("chord", chord), ("key", key)):
        ids = labels_of(full, name, n)
        x.check(f"forced {name}s are there", all(i == -1 or g == i for g, i in zip(got, ids)))
    x.check("forced chord changes happen", full["forced_chord_changes"] - {0} <= starts)
    x.check("forced chord non-changes do not", not full["forced_chord_non_changes"] & starts)
    changes = {i for i in range(1, n) if key[i] != key[i - 1]}
    x.check("forced key changes happen", full["forced_key_changes"] - {0} <= changes)
    x.check("forced key non-changes do not", not full["forced_key_non_changes"] & changes)


def c18_loader(limit):
    base = loader(limit)

    class Loader(base):
        def __iter__(self):
            for s in range(0, len(self.d), self.n):
                items = [self.d[i] for i in range(s, min(s + self.n, len(self.d)))]
                out = {k: [it[k] for it in items] for k in items[0] if k != "hidden_states"}
                if "hidden_states" in items[0]:
                    out["hidden_states"] = [[it["hidden_states"][j] for it in items] for j in (0, 1)]
                yield out

    return Loader


@harness(PARTS, **WHOLE)
def obeyed(x):
    """The models are given exactly this piece's notes and the windows of its possible chords, the search exactly the ranges
    and answers that result; what it finds is returned. Every forced chord and key is the label at its inputs, every forced
    change is one and every forced non-change is none, unless the forces are refused as contradictory or nothing is found."""
    whole(x, PITCH_TYPES, [2, 3, 4])


@harness(PARTS, **WHOLE)
def obeyed_tonal(x):
    """The same on longer pieces, tonal pitches."""
    whole(x, [TPC], [5, 6, 8])


@harness(PARTS, **WHOLE)
def obeyed_midi(x):
    """The same on longer pieces, MIDI pitches."""
    whole(x, [MIDI], [5, 6, 8])


# ---- searches full of forces ------------------------------------------------------------------------
def forced_search(x, pts=PITCH_TYPES):
    w = c17.World(x, pts, (3, 4, 5, 6, 7), False)
    n = w.n
    rng = random.Random(x.int("more forces", 0, 10 ** 6))
    near = [i for i, (tonic, m) in enumerate(w.labels["key"]) if w.pt == MIDI or 10 <= tonic <= 22]
    keys = [int(w.key_forced[0]), rng.choice(near)]
    qk, qc = rng.choice([0, 0.3, 0.5]), rng.choice([0, 0, 0.3])
    for i in range(1, n):
        if rng.random() < qk:
            w.key_forced[i] = rng.choice(keys)
        if rng.random() < qc:
            w.chord_forced[i] = rng.choice(w.pool)
    pick = lambda q: {i for i in range(1, n) if rng.random() < q}  # noqa: E731
    must = {k: pick(rng.choice([0, 0, 0.3])) for k in ("chord_changes", "chord_non_changes", "key_changes", "key_non_changes")}
    must["key_non_changes"] -= must["key_changes"]
    must["chord_non_changes"] -= must["chord_changes"] | must["key_changes"]
    w.must = must
    # what get_chord_ranges gives: no range across a forced change, to or from a forced non-change, or with two forced labels
    cuts, joins = must["chord_changes"] | must["key_changes"], must["chord_non_changes"]
    every = [(a, b) for a in range(n) for b in range(a + 1, n + 1)]
    lp = dict(zip(w.ranges, zip(w.lp, w.rejoin, w.prior)))
    keep = []
    for a, b in every:
        if any(a < i < b for i in cuts) or a in joins or b in joins:
            continue
        if any(len(set(f[a:b]) - {-1}) > 1 for f in (w.key_forced, w.chord_forced)):
            continue
        some = rng.choice(list(lp.values()))
        keep.append(((a, b), lp.get((a, b), some)))
    keep = [v for v in keep if v[0] in lp or rng.random() < 0.3]
    if not keep:
        x.assume(False)
    w.ranges = [r for r, _ in keep]
    w.lp, w.rejoin, w.prior = ([v[k] for _, v in keep] for k in range(3))
    x.note(keys=list(map(int, w.key_forced)), chords=list(map(int, w.chord_forced)), must={k: sorted(v) for k, v in must.items()},
           ranges=w.ranges)
    r = c17.search(x, w, x.choice("beam size", [2, 8, 50]), x.choice("hash length", [None, 2]), x.choice("batch", [2, 64]))
    s = x.returns("returns", r)
    if s is None:
        return
    k0, segs, first = segments(s)
    x.note(analysis=(k0, segs))
    chord = [g[2] for g in segs for _ in range(g[0], g[1])]
    key = [g[3] for g in segs for _ in range(g[0], g[1])]
    x.check("the whole piece", len(chord) == n and segs[0][0] == 0)
    x.check("forced chords are there", all(f == -1 or c == f for c, f in zip(chord, w.chord_forced)))
    x.check("forced keys are there", all(f == -1 or c == f for c, f in zip(key, w.key_forced)))
    starts = {g[0] for g in segs}
    changes = {i for i in range(1, n) if key[i] != key[i - 1]}
    x.check("forced chord changes happen", must["chord_changes"] | must["key_changes"] <= starts)
    x.check("forced chord non-changes do not", not must["chord_non_changes"] & starts)
    x.check("forced key changes happen", must["key_changes"] <= changes)
    x.check("forced key non-changes do not", not must["key_non_changes"] & changes)


SEARCHES = dict(kind="bounded", symbolic=False, samples=500, max_seconds=45, bound="random searches of at most 7 inputs with many forces")


@harness([JM + "beam_search"], **SEARCHES)
def forced_search_tonal(x):
    """Searches full of forces: whatever is found has all of them."""
    forced_search(x, [TPC])


@harness([JM + "beam_search"], **SEARCHES)
def forced_search_midi(x):
    """The same with MIDI pitches."""
    forced_search(x, [MIDI])


# ---- forces from a file -------------------------------------------------------------------------------
SCRIPT = []


def script():
    """/repo/test.py (a script, not a test), with the models it imports left out."""
    if not SCRIPT:
        root = os.path.dirname(os.path.dirname(os.path.abspath(sys.modules["harmonic_inference"].__path__[0] + "/x")))
        spec = importlib.util.spec_from_file_location("repo_test_script", os.path.join(root, "test.py"))
        mod = importlib.util.module_from_spec(spec)
        old_path = list(sys.path)
        sys.path.insert(0, root)
        try:
            spec.loader.exec_module(mod)
        finally:
            sys.path[:] = old_path
        SCRIPT.append(mod)
    return SCRIPT[0]


@harness(["test:load_forces_from_json"], kind="bounded", symbolic=False, samples=200, max_seconds=15,
         bound="random force files with at most three pieces")
def forces_file(x):
    """Forces read from a file are those written in it, by piece, or for all pieces when the file names none."""
    rng = random.Random(x.int("seed", 0, 10 ** 6))
    nested = x.choice("by piece", [True, False])

    def one():
        out = random_forces(rng, rng.randrange(1, 30), {"chord": 500, "key": 70}, 0.4)
        return {k: v for k, v in out.items() if rng.random() < 0.7}

    def text(f):
        sep = rng.choice([",", ", "])
        return {k: sorted(v) if isinstance(v, set) else {f"({a}{sep}{b})": i for (a, b), i in v.items()} for k, v in f.items()}

    if nested:
        names = rng.sample(["default", "Bach/x", "a.tsv", "op 3"], rng.randrange(0, 4))
        want = {nm: one() for nm in names}
        raw = {nm: text(f) for nm, f in want.items()}
    else:
        f = one()
        if not f:
            f = {"forced_keys": {}}
        want, raw = {"default": f}, text(f)
    fd, path = tempfile.mkstemp(suffix=".json")
    with os.fdopen(fd, "w") as fh:
        json.dump(raw, fh)
    try:
        r = x.returns("returns", x.call(script().load_forces_from_json, path))
    finally:
        os.remove(path)
    x.check("the forces of the file", r == want)


# ---- proofs -------------------------------------------------------------------------------------------
def refused_exactly(pt, zero):
    def f(x):
        """For any forces on a piece of any length: refused only when contradictory (the contradiction is exhibited), and when
        they are not refused there is no contradiction at any input and every input has its forced labels."""
        if x.symbolic and x.mode_unroll is not None:
            raise Unsupported("no unrolled form")
        if not x.symbolic:
            return refused(x)
        fg.validated(x, pt, zero)

    names = [n for n, v in zip(KINDS, zero) if v]
    f.__name__ = f"refused_exactly_{pt.name}" + "".join("_" + n for n in names)
    return harness([JM + "_validate_and_load_forced_labels"], samples=20, max_seconds=10, budget=150)(f)


for _pt in PITCH_TYPES:
    for _zero in ((False, False), (True, False), (False, True), (True, True)):
        refused_exactly(_pt, _zero)


def only_proof(x, bounded):
    """Whether this run is the proof; bounded: what the other runs do."""
    if x.symbolic and x.mode_unroll is not None:
        raise Unsupported("no unrolled form")
    if not x.symbolic:
        bounded(x)
    return x.symbolic


@harness([JM + "beam_search"], samples=60, max_seconds=10)
def every_step_obeys(x):
    """Pieces of any length, any beam: every state that is kept has the forced chord and key at its inputs, changes where a change
    is forced and nowhere where none may be (at an arbitrary input, by induction over the search)."""
    if only_proof(x, forced_search):
        ghosts.every_step(x, False)


@harness([JM + "_apply_forced_chord_changes"], samples=10, max_seconds=10)
def forces_enter(x):
    """Any sets on a piece of any length: forced chord and key changes get probability one, forced chord non-changes zero, all
    others are kept."""
    if only_proof(x, obeyed):
        fg.applied(x)


@harness([JM + "get_harmony"], samples=10, max_seconds=10)
def one_piece(x):
    """Any piece, any forces: what is forced is validated first; ranges come from the probabilities after the forces entered;
    every range is classified from the first note that sounds at its start; what the search finds is returned."""
    if only_proof(x, obeyed):
        fg.harmony(x)


@harness([JM + "get_chord_classifications"], samples=10, max_seconds=10)
def classifications(x):
    """Any number of windows, any batches: the logarithm of the classifier's answer for each window, in order, untransposed."""
    if only_proof(x, obeyed):
        fg.classified(x)


@harness([JM + "get_chord_change_probs"], samples=10, max_seconds=10)
def change_probabilities(x):
    """The transition model is asked about the notes of this piece; its answer for each of them is returned."""
    if only_proof(x, obeyed):
        fg.changes_asked(x)
