"""C17: the analysis the search returns: admissible, scored by exactly its own parts, and nothing better was missed."""
from common import *
from fractions import Fraction
import itertools
import math
import random
import zlib
import numpy as np
from pyvc.sym import Unsupported
import batched
import search as ghosts
import harmonic_inference.data.datasets as ds
import harmonic_inference.models.joint_model as jm
import harmonic_inference.utils.beam_search_utils as bsu
import harmonic_inference.utils.harmonic_utils as hu
from harmonic_inference.data.chord import Chord, get_chord_vector_length
from harmonic_inference.data.key import Key
from harmonic_inference.data.vector_decoding import reduce_chord_one_hots

JM = "harmonic_inference.models.joint_model:HarmonicInferenceModel."
HARNESSES = []


class T(np.ndarray):
    """Stand-in for a torch tensor: the few operations the search uses."""

    def numpy(self):
        return np.asarray(self)

    def equal(self, o):
        return bool(np.array_equal(np.asarray(self), np.asarray(o)))


def t(a):
    return np.asarray(a).view(T)


def digest(h, row, salt):
    return float(zlib.crc32(np.float64(h).tobytes() + np.asarray(row, dtype=np.float32).tobytes() + salt))


def number(*k):
    return zlib.crc32(repr(k).encode())


TABLES = {}


def vector(size, power, *k):
    """Log probabilities that depend on everything given."""
    if (size, power) not in TABLES:
        v = np.random.RandomState(7).rand(31, size) ** power + 1e-4
        TABLES[size, power] = np.log(v / v.sum(axis=1, keepdims=True))
    n = number(*k)
    return np.roll(TABLES[size, power][n % 31], n // 31 % size)


class Recurrent:
    """A model whose memory is exactly the sequence of rows it has read (as a running digest)."""

    def __init__(self, salt, reduction, inversions):
        self.salt, self.reduction, self.inv = salt, reduction, inversions

    def init_hidden(self, n):
        return t(np.zeros((1, n, 1))), t(np.zeros((1, n, 1)))

    def step(self, h, c, row):
        return digest(h, row, self.salt), digest(c, row, self.salt + b"c")

    def read(self, rows, h=0.0, c=0.0):
        for r in rows:
            h, c = self.step(h, c, r)
        return h, c

    def run(self, batch, lengths):
        hs, cs, outs = [], [], []
        for i, rows in enumerate(batch["inputs"]):
            h, c = self.read(rows[: lengths[i]], float(batch["hidden_states"][0][i][0, 0]), float(batch["hidden_states"][1][i][0, 0]))
            hs.append([h])
            cs.append([c])
            outs.append(self.out(h, c))
        return outs, (t(np.array([hs])), t(np.array([cs])))


class FakeKTM(Recurrent):
    def get_dataset_kwargs(self):
        return {"reduction": self.reduction, "use_inversions": self.inv}

    def out(self, h, c):
        return self.scale(number(h, c, "ktm") / 2 ** 32)

    def run_one_step(self, batch):
        outs, hidden = self.run(batch, [1] * len(batch["inputs"]))
        return t(np.array(outs).reshape(-1, 1)), hidden


class FakeKSM(Recurrent):
    def get_dataset_kwargs(self):
        return {"reduction": self.reduction, "use_inversions": self.inv}

    def out(self, h, c):
        return vector(self.size, 6, h, c)

    def get_output(self, batch):
        outs, hidden = self.run(batch, batch["input_lengths"])
        return t(np.array(outs)), hidden


class FakeCSM(Recurrent):
    use_output_inversions = True
    output_reduction = None

    def get_dataset_kwargs(self):
        return {
            "input_reduction": self.reduction, "output_reduction": self.output_reduction, "use_inversions_input": self.inv,
            "use_inversions_output": self.use_output_inversions, "pitch_based": False,
        }

    def out(self, h, c):
        return vector(self.size, 1, h, c, "s")

    def run_one_step(self, batch):
        outs, hidden = self.run(batch, [1] * len(batch["inputs"]))
        return [t(o[None, :]) for o in outs], hidden


class ICM:
    def __init__(self, priors):
        self.priors = priors

    def get_prior(self, is_minor, log=True):
        return self.priors[bool(is_minor)] if log else np.exp(self.priors[bool(is_minor)])


def loader(limit):
    class Loader:
        """Contract of the data loader: the items in order, collated, in batches of at most batch_size."""

        def __init__(self, dataset, batch_size, shuffle):
            assert not shuffle
            self.d, self.n = dataset, min(batch_size, limit)

        def __iter__(self):
            for s in range(0, len(self.d), self.n):
                items = [self.d[i] for i in range(s, min(s + self.n, len(self.d)))]
                out = {k: np.array([it[k] for it in items]) for k in items[0] if k != "hidden_states"}
                out["hidden_states"] = [[it["hidden_states"][j] for it in items] for j in (0, 1)]
                yield out

    return Loader


class TorchStandIn:
    @staticmethod
    def transpose(a, i, j):
        return t(np.swapaxes(np.asarray(a), i, j))


class O:
    def __init__(self, **k):
        self.__dict__.update(k)


LABELS = {}


class World:
    """Ranges, priors and model outputs of one search, and what each analysis is worth."""

    def __init__(self, x, pts, sizes, any_key):
        self.pt = pt = x.choice("pitch type", pts)
        rng = random.Random(x.int("seed", 0, 10 ** 6))
        self.n = n = x.choice("inputs", list(sizes))
        self.labels = LABELS.setdefault(pt, {}) or {
            "chord": hu.get_chord_from_one_hot_index(slice(None, None), pt),
            "key": hu.get_key_from_one_hot_index(slice(None, None), pt),
            "relative_key": list(itertools.product(KeyMode, range(-14, 15) if pt == TPC else range(12))),
        }
        LABELS[pt] = self.labels
        self.p = [0.0] + [rng.uniform(0.1, 0.9) for _ in range(n - 1)]
        every = [(a, b) for a in range(n) for b in range(a + 1, n + 1)]
        ranges = [r for r in every if r == (r[0], r[0] + 1) or rng.random() < 0.6]
        self.key_forced = np.full(n, -1)
        self.chord_forced = np.full(n, -1)
        near = [i for i, (tonic, m) in enumerate(self.labels["key"]) if pt == MIDI or 10 <= tonic <= 22]
        if not any_key:
            self.key_forced[0] = rng.choice(near)
        if x.choice("forced key", [True, any_key, False]):
            a = rng.randrange(n) if not any_key else rng.randrange(1, n)
            k = rng.choice(near)
            for i in range(a, min(n, a + 1 + rng.randrange(2))):
                if self.key_forced[i] == -1:
                    self.key_forced[i] = k
        self.pool = [
            i for i, (r, ty, inv) in enumerate(self.labels["chord"])
            if (pt == MIDI or 9 <= r <= 22) and inv < 2 and ty in (TYPES[0], TYPES[1], TYPES[5])
        ]
        self.pool = rng.sample(self.pool, x.choice("likely chords", [2, 2, 4]))
        if x.choice("forced chord", [True, False, False]):
            a = rng.randrange(n)
            self.chord_forced[a: a + 1 + rng.randrange(2)] = rng.choice(self.pool)
        for f in (self.key_forced, self.chord_forced):
            ranges = [r for r in ranges if len(set(f[r[0]: r[1]]) - {-1}) < 2]
        pick = lambda q: {i for i in range(1, n) if rng.random() < q}  # noqa: E731
        self.must = {n: set() for n in ("chord_changes", "chord_non_changes", "key_changes", "key_non_changes")}
        if x.choice("forced changes", [True, False, False]):
            self.must["chord_changes"] = pick(0.2)
            self.must["key_changes"] = pick(0.25)
            self.must["key_non_changes"] = pick(0.3) - self.must["key_changes"]
        rng.shuffle(ranges)
        self.ranges = ranges
        nochange = [math.log(1 - q) for q in self.p]
        self.lp = [
            sum(nochange[a + 1: b]) + (math.log(self.p[b]) if b < n else 0.0) for a, b in ranges
        ]
        self.rejoin = [nochange[a] - (math.log(self.p[a]) if a else 0.0) for a, b in ranges]
        size = len(self.labels["chord"])
        self.prior = []
        for _ in ranges:
            v = np.full(size, 1e-7)
            for c in self.pool:
                v[c] = rng.random() ** 2 + 1e-3
            self.prior.append(np.log(v / v.sum()))
        # never as far as the chords that are all equally unlikely
        self.max_chords = min(x.choice("chord branching", [1, 2, 2, 3]), len(self.pool))
        self.target_chord = x.choice("chord mass", [0.3, 0.7, 0.95, 1.0])
        self.max_keys = x.choice("key branching", [1, 2, 2])
        self.target_key = x.choice("key mass", [0.05, 0.3, 0.9, 1.0, 1.0])
        self.min_key, self.max_no_key = x.choice("key change limits", [(0.05, 0.75), (0.4, 0.6), (0.01, 1.0), (0.3, 0.3)])
        self.exponent = x.choice("exponent", [0.1, 1, 2.5, 20])
        self.ktm = FakeKTM(b"t", x.choice("ktm reduction", [None, TRIAD_REDUCTION, OWN_REDUCTION]), x.choice("ktm inversions", [True, False]))
        steep = x.choice("key change tendency", [1.0, 3.0])
        self.ktm.scale = lambda v: v ** steep
        self.ksm = FakeKSM(b"s", x.choice("ksm reduction", [None, TRIAD_REDUCTION, OWN_REDUCTION]), x.choice("ksm inversions", [True, False]))
        self.ksm.size = len(self.labels["relative_key"])
        self.csm = FakeCSM(b"q", x.choice("csm reduction", [None, TRIAD_REDUCTION, OWN_REDUCTION]), x.choice("csm inversions", [True, False]))
        self.csm.output_reduction = x.choice("csm output reduction", [None, TRIAD_REDUCTION, OWN_REDUCTION])
        self.csm.use_output_inversions = x.choice("csm output inversions", [True, False])
        self.csm.size = get_chord_vector_length(
            pt, one_hot=True, relative=True, use_inversions=self.csm.use_output_inversions, pad=False,
            reduction=self.csm.output_reduction,
        )
        full = get_chord_vector_length(pt, one_hot=True, relative=True, use_inversions=True, pad=False, reduction=None)
        self.icm = []
        for i in range(2):
            self.icm.append(vector(full, 1, i, rng.randrange(10 ** 6)))
        self.durations = np.array([Fraction(rng.choice([1, 2, 3]), 8) for _ in range(n)])
        self.onsets = [(0, Fraction(i, 8)) for i in range(n + 1)]
        self.levels = [rng.randrange(4) for _ in range(n + 1)]
        self.tops = [self.top(np.exp(pr), self.target_chord, self.max_chords) for pr in self.prior]
        self.memo = {}

    @staticmethod
    def top(probs, target, limit):
        """The likeliest ones whose mass reaches the target (all if it never does), at most limit of them."""
        order = [int(i) for i in np.argsort(-np.asarray(probs), kind="stable")]
        sums = np.cumsum(np.asarray(probs)[order])
        hit = np.nonzero(sums >= target)[0]
        k = int(hit[0]) + 1 if len(hit) else len(order)
        return order, max(1, min(k, limit))

    # ---- rows -----
    def key(self, k):
        tonic, mode = self.labels["key"][k]
        return Key(tonic, tonic, tonic, mode, mode, mode, self.pt)

    def chord(self, a, b, c, k):
        r, ty, inv = self.labels["chord"][c]
        tonic, mode = self.labels["key"][k]
        bass = hu.get_bass_note(ty, r, inv, self.pt)
        return Chord(
            r, bass, tonic, mode, ty, inv, self.onsets[a], self.levels[a], self.onsets[b], self.levels[b],
            sum(self.durations[a:b], Fraction(0)), self.pt,
        )

    def row(self, kind, seg, before):
        """Row of a chord for model kind; before: key before it."""
        mk = (kind, seg, before)
        if mk not in self.memo:
            a, b, c, k = seg
            ch = self.chord(a, b, c, k)
            kw = {"ktm": self.ktm, "ksm": self.ksm, "csm": self.csm}[kind].get_dataset_kwargs()
            size = len(self.key(k).get_key_change_vector(self.key(k)))
            change = self.key(before).get_key_change_vector(self.key(k)) if before != k else np.zeros(size)
            v = np.concatenate([ch.to_vec(pad=kind != "csm"), change, [1 if before != k else 0]])
            cls = {"ktm": ds.KeyTransitionDataset, "ksm": ds.KeySequenceDataset, "csm": ds.ChordSequenceDataset}[kind]
            data = {"inputs": v[None, :].astype(float)}
            cls([], **kw).reduce(data)
            self.memo[mk] = data["inputs"][0]
        return self.memo[mk]

    def rows(self, kind, segs):
        out, before = [], segs[0][3] if segs else None
        for s in segs:
            out.append(self.row(kind, s, before))
            before = s[3]
        return out

    def memory(self, kind, segs):
        mk = ("m", kind, segs)
        if mk not in self.memo:
            model = {"ktm": self.ktm, "ksm": self.ksm, "csm": self.csm}[kind]
            self.memo[mk] = model.read(self.rows(kind, segs))
        return self.memo[mk]

    # ---- model outputs -----
    def change_prob(self, before, seg):
        """Key change probability at a chord, in the key of the chord before."""
        if not before:
            return 0.0
        return self.ktm.out(*self.memory("ktm", before + (seg,)))

    def new_keys(self, before, seg):
        """(key, log prior) of the keys branched into at this chord."""
        a, b, c, k = seg
        pri = self.ksm.out(*self.memory("ksm", before + (seg,)))
        order, limit = self.top(np.exp(pri), self.target_key, self.max_keys)
        forced = set(self.key_forced[a:b]) - {-1}
        out = []
        for i in order:
            mode, interval = self.labels["relative_key"][i]
            tonic = self.labels["key"][k][0] + interval
            tonic = tonic % 12 if self.pt == MIDI else tonic
            if not 0 <= tonic < NPITCH[self.pt]:
                continue
            nk = [j for j, lb in enumerate(self.labels["key"]) if tuple(lb) == (tonic, mode)][0]
            if nk == k or (forced and nk not in forced) or not self.fits(c, nk, 0):
                continue
            out.append((nk, pri[i]))
            if len(out) == limit or forced:
                break
        return out

    def fits(self, c, k, extra):
        r, ty, inv = self.labels["chord"][c]
        bass = hu.get_bass_note(ty, r, inv, self.pt)
        tonic = self.labels["key"][k][0]
        return all(-14 - extra <= v - tonic < 15 + extra for v in (r, bass))

    def chord_prior(self, before, seg):
        a, b, c, k = seg
        i = self.chord(a, b, c, k).get_one_hot_index(relative=True, use_inversion=True, pad=False)
        if not before:
            return self.icm[self.labels["key"][k][1] == KeyMode.MINOR][i]
        if ("j", i) not in self.memo:
            self.memo["j", i] = reduced(
                [i], pad=False, pitch_type=self.pt, inversions_present=True, reduction_present=None, relative=True,
                reduction=self.csm.output_reduction, use_inversions=self.csm.use_output_inversions,
            )[0]
        return self.csm.out(*self.memory("csm", before))[self.memo["j", i]]

    # ---- all permitted analyses -----
    def key_choices(self, before, a, b, c, k):
        """(key, log probability of keeping or changing it and what follows) for a chord from a to b; k: key before."""
        mk = ("k", before, a, b, c, k)
        if mk in self.memo:
            return self.memo[mk]
        seg = (a, b, c, k)
        ln = b - a
        q = self.change_prob(before, seg)
        may_keep = q <= self.max_no_key and self.fits(c, k, 0)
        may_change = q >= self.min_key
        forced = set(self.key_forced[a:b]) - {-1}
        if len(forced) > 1:
            self.memo[mk] = []
            return []
        if forced:
            same = k in forced
            may_keep, may_change = same and self.fits(c, k, 0), not same and bool(before)
        if a in self.must["key_changes"]:
            may_keep, may_change = False, bool(before)
        if a in self.must["key_non_changes"]:
            may_keep, may_change = self.fits(c, k, 0) and (not forced or k in forced), False
        out = []
        if may_keep and q < 1:
            out.append((k, math.log(1 - q) * ln + self.chord_prior(before, seg) * ln))
        if may_change and q > 0:
            for nk, pri in self.new_keys(before, seg):
                out.append((nk, math.log(q) * ln + pri * self.exponent * ln))
        self.memo[mk] = out
        return out

    def analyses(self, cap):
        """{(first key, segments): set of scores} of all permitted ways through; None when there are too many."""
        start = range(len(self.labels["key"])) if self.key_forced[0] == -1 else [int(self.key_forced[0])]
        by_start = {}
        for i, (a, b) in enumerate(self.ranges):
            by_start.setdefault(a, []).append(i)
        # a partial analysis: (first key, segments before the last, last (a, b, c, k), score before last, chord part, key part)
        level = {0: [(k0, (), None, 0.0, 0.0, 0.0) for k0 in start]}
        seen = 0
        for pos in range(self.n):
            for k0, done, last, base, chord_part, key_part in level.pop(pos, []):
                for i in by_start.get(pos, []):
                    a, b = self.ranges[i]
                    order, limit = self.tops[i]
                    if limit == 1 and last is not None and order[0] == last[2]:
                        limit = 2
                    ids = order[:limit]
                    forced = set(self.chord_forced[a:b]) - {-1}
                    if forced:
                        ids = list(forced)
                    for c in ids:
                        add = self.lp[i] + self.prior[i][c] * (b - a)
                        if last is not None and c == last[2] and a in self.must["chord_changes"] | self.must["key_changes"]:
                            continue
                        if last is not None and c == last[2]:
                            before, bs, s = done, base, last[0]
                            key = before[-1][3] if before else k0
                            part = chord_part + add + self.rejoin[i]
                        else:
                            before = done + ((last,) if last else ())
                            bs, s = base + chord_part + key_part, a
                            key = last[3] if last else k0
                            part = add
                            if not self.fits(c, key, 5):
                                continue
                        for nk, kp in self.key_choices(before, s, b, c, key):
                            seen += 1
                            if seen > cap:
                                return None
                            level.setdefault(b, []).append((k0, before, (s, b, c, nk), bs, part, kp))
        out = {}
        for k0, done, last, base, cp, kp in level.get(self.n, []):
            out.setdefault((k0, done + (last,)), []).append(base + cp + kp)
        return out

    def model(self, beam, hash_length):
        m = object.__new__(jm.HarmonicInferenceModel)
        m.__dict__.update(
            LABELS=self.labels, CHORD_OUTPUT_TYPE=self.pt, KEY_OUTPUT_TYPE=self.pt, min_key_change_prob=self.min_key,
            max_no_key_change_prob=self.max_no_key, max_chord_branching_factor=self.max_chords,
            target_chord_branch_prob=self.target_chord, max_key_branching_factor=self.max_keys,
            target_key_branch_prob=self.target_key, ksm_exponent=self.exponent, beam_size=beam, hash_length=hash_length,
            current_piece=O(get_inputs=lambda: [None] * self.n, get_keys=lambda: None), debugger=None,
            duration_cache=self.durations, onset_cache=self.onsets, onset_level_cache=self.levels,
            forced_chord_ids=self.chord_forced.copy(), forced_key_ids=self.key_forced.copy(),
            key_transition_model=self.ktm, key_sequence_model=self.ksm, chord_sequence_model=self.csm,
            initial_chord_model=ICM(self.icm), **{"forced_" + k: set(v) for k, v in self.must.items()},
        )
        return m


REDUCED = {}


def reduced(*a, **k):
    """The real reduce_chord_one_hots (contract: C13), each answer computed once."""
    key = repr((a, sorted((n, str(v)) for n, v in k.items())))
    if key not in REDUCED:
        REDUCED[key] = reduce_chord_one_hots(*a, **k)
    return REDUCED[key].copy()


def search(x, w, beam, hash_length, batch):
    m = w.model(beam, hash_length)
    old = jm.DataLoader, jm.torch, jm.tqdm
    jm.DataLoader, jm.torch, jm.tqdm = loader(batch), TorchStandIn, lambda it, **k: it
    slow = vars(bsu).get("reduce_chord_one_hots")
    if slow is not None:
        bsu.reduce_chord_one_hots = reduced
    try:
        return x.call(m.beam_search, list(w.ranges), list(w.lp), list(w.rejoin), np.array(w.prior))
    finally:
        jm.DataLoader, jm.torch, jm.tqdm = old
        if slow is not None:
            bsu.reduce_chord_one_hots = slow


def segments(state):
    out = []
    while state.prev_state is not None:
        out.append((int(state.prev_state.change_index), int(state.change_index), int(state.chord), int(state.key)))
        state = state.prev_state
    return int(state.key), tuple(reversed(out)), state


def close(a, b):
    return abs(a - b) <= 1e-6 * max(1.0, abs(a))


def returned(x, unlimited, pts=PITCH_TYPES, sizes=(2, 3, 4, 5), any_key=False):
    w = World(x, pts, sizes, any_key)
    everything = w.analyses(3000)
    if everything is None:
        x.assume(False)
    beam = 10 ** 6 if unlimited else x.choice("beam size", [1, 2, 3, 8])
    hash_length = None if unlimited else x.choice("hash length", [None, 1, 2, 5])
    s = x.returns("returns", search(x, w, beam, hash_length, x.choice("batch", [1, 2, 64])))
    if s is None:
        x.check("nothing only when nothing is permitted", not (unlimited and everything))
        return
    k0, segs, first = segments(s)
    x.note(analysis=(k0, segs, float(s.log_prob)))
    x.check("begins at the beginning", first.change_index == 0 and segs[0][0] == 0)
    x.check("reaches the end", segs[-1][1] == w.n)
    x.check("a permitted analysis", (k0, segs) in everything)
    x.check("its score is that of its parts", any(close(v, float(s.log_prob)) for v in everything[(k0, segs)]))
    if unlimited:
        best = max(v for vs in everything.values() for v in vs)
        x.check("nothing likelier was missed", float(s.log_prob) >= best - 1e-6 * max(1.0, abs(best)))


FUNCTIONS = [JM + n for n in ("beam_search", "get_key_change_probs", "get_key_change_states", "run_csm_batched")]
BOUNDED = dict(
    kind="bounded", symbolic=False, samples=250, max_seconds=50,
    bound="random pieces of at most 5 inputs, 3 chords per branching, all permitted analyses enumerated (at most 3000 steps)",
)


@harness(FUNCTIONS, **BOUNDED)
def best_tonal(x):
    """The returned state covers the piece, is one of the permitted analyses (ranges, branching, forced labels, key change
    rules) and scored by exactly its parts: ranges, chord classifications, key change decisions, key and chord priors given
    everything before. The beam holds everything: no permitted analysis is likelier."""
    returned(x, True, [TPC])


@harness(FUNCTIONS, **BOUNDED)
def best_midi(x):
    """The same with MIDI pitches."""
    returned(x, True, [MIDI])


@harness(FUNCTIONS, **BOUNDED)
def best_any_key(x):
    """The same where the first key is not given."""
    returned(x, True, PITCH_TYPES, (2, 3, 3), True)


@harness(FUNCTIONS, **BOUNDED)
def small_beam(x):
    """With a small or hashed beam: a permitted analysis, scored by exactly its parts."""
    returned(x, False)


@harness(FUNCTIONS, **BOUNDED)
def small_beam_longer(x):
    """The same, longer pieces only."""
    returned(x, False, PITCH_TYPES, (5, 6))


@harness([JM + "beam_search"], samples=40, max_seconds=20)
def steps_are_sound(x):
    """Pieces of any length, any beam size: every state kept in a beam comes from a member of an earlier beam by one permitted
    step: a range that starts there, one of its likeliest chords (or the forced one), one permitted key decision, with exactly the
    probabilities of these; everything forced holds in it; the result is the best state at the end of the piece."""
    if x.symbolic and x.mode_unroll is not None:
        raise Unsupported("no unrolled form")
    if not x.symbolic:
        return returned(x, False)
    ghosts.every_step(x, False)


@harness([JM + "beam_search"], samples=40, max_seconds=20)
def steps_are_complete(x):
    """When the beams have room for everything, every permitted step from every state is taken, from every permitted first key on."""
    if x.symbolic and x.mode_unroll is not None:
        raise Unsupported("no unrolled form")
    if not x.symbolic:
        return returned(x, True)
    ghosts.every_step(x, True)


def glue(kind):
    def f(x):
        if x.symbolic and x.mode_unroll is not None:
            raise Unsupported("no unrolled form")
        if not x.symbolic:
            return returned(x, x.choice("unlimited", [True, False]))
        batched.memory_and_outputs(x, kind)

    return f


@harness([JM + "get_key_change_probs"], samples=20, max_seconds=15)
def key_change_probabilities(x):
    """Any number of states, any batches: each state is run on its own input and memory, gets its own new memory, and its
    probability is returned in its place (0 where there is no key to change from yet)."""
    glue("ktm")(x)


@harness([JM + "get_key_change_states"], samples=20, max_seconds=15)
def key_branches(x):
    """Any number of states, any vocabulary of keys: each state branches into exactly the likeliest keys it may change to (inside the
    pitch range, the forced one if there is one, not its own, not refused), as many as the target mass and the branching factor
    allow, each with its own probability to the exponent on every input; and gets its own new memory."""
    glue("ksm")(x)


@harness([JM + "run_csm_batched"], samples=20, max_seconds=15)
def chord_priors(x):
    """Any number of states, any batches: each state gets the prior and memory that follow from its own input and memory."""
    glue("csm")(x)
