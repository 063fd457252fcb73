"""C14: the data sets the models are trained on: each item says what the piece says, however often it is read."""
from common import *
import os
import shutil
import tempfile
from fractions import Fraction
from pathlib import Path
import numpy as np
from avec import same_vector
from c02 import INV, index_spec
from c07 import CONTENT, tones
from c12 import KC_LEN, WINDOW, chord_vector_spec, key_change_spec, midi_class, note_vector_spec
import harmonic_inference.data.datasets as ds
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.key import Key
from harmonic_inference.data.note import Note

DS = "harmonic_inference.data.datasets:"
BOUND = dict(kind="bounded", symbolic=False)


class FakePiece:
    def __init__(self, **k):
        self.__dict__.update(k)

    def get_chords(self):
        return self.chords

    def get_keys(self):
        return self.keys

    def get_key_change_indices(self):
        return self.key_changes

    def get_inputs(self):
        return self.notes

    def get_duration_cache(self):
        return self.durations

    def get_chord_change_indices(self):
        return self.changes

    def get_chord_note_inputs(self, ranges=None, change_indices=None):
        return self.note_inputs


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(u, v) for u, v in zip(a, b))
    return np.array_equal(np.asarray(a), np.asarray(b))


def snapshot(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return [snapshot(u) for u in v]
    return v


def make_keys_and_chords(x, pt, tag, n, changes):
    """A piece of n chords whose key changes at the given chords."""
    lo = 12 if pt == TPC else 0
    hi = 20 if pt == TPC else 12
    keys, chords = [], []
    for i in range(n):
        if i == 0 or i in changes:
            while True:
                k = (x.choice(f"{tag} tonic {i}", range(lo, hi)), x.choice(f"{tag} mode {i}", MODES))
                if not keys or k != keys[-1]:
                    break
                k = ((k[0] + 1 - lo) % (hi - lo) + lo, k[1])
                break
            keys.append(k)
        t = x.choice(f"{tag} type {i}", TYPES)
        root = x.choice(f"{tag} root {i}", range(lo, hi))
        inv = x.choice(f"{tag} inv {i}", range(INV[t]))
        bass = root + tones(t, pt)[inv]
        bass = bass % 12 if pt == MIDI else bass
        on, off = x.choice(f"{tag} on {i}", range(4)), (i + 1) % 4
        c = Chord(root, bass, keys[-1][0], keys[-1][1], t, inv, (i, Fraction(0)), on, (i + 1, Fraction(0)), off, Fraction(1 + i, 2), pt)
        chords.append(c)
    # (the applied key counts; the local and global ones are other keys)
    objs = [Key(t, (t + 1 - lo) % (hi - lo) + lo, lo, m, MODES[i % 2], MODES[0], pt) for i, (t, m) in enumerate(keys)]
    starts = [0] + sorted(changes)
    return FakePiece(chords=chords, keys=objs, key_changes=starts)


def vec(x, pt, pad, c, key=None):
    tonic, mode = (c.key_tonic, c.key_mode) if key is None else (key.relative_tonic, key.relative_mode)
    return chord_vector_spec(
        x, pt, pad, c.root, c.bass, tonic, mode, c.chord_type, c.inversion, c.onset_level, c.offset_level, c.duration
    )


def rows_spec(x, pt, pad, piece):
    out = []
    for i, c in enumerate(piece.chords):
        k = piece.key_changes.index(i) if i in piece.key_changes else 0
        if k > 0:
            a, b = piece.keys[k - 1], piece.keys[k]
            change = key_change_spec(x, pt, a.relative_tonic, b.relative_tonic, b.relative_mode) + [1]
        else:
            change = [0] * (KC_LEN[pt] + 1)
        out.append(vec(x, pt, pad, c) + change)
    return out


def reduced(rows, n, red, use_inv):
    out = []
    for r in rows:
        r = list(r)
        for k in range(12):
            if red is not None and r[n + k] == 1:
                r[n : n + 12] = [1 if j == red[TYPES[k]].value else 0 for j in range(12)]
                break
        if not use_inv:
            a = 2 * n + 12
            r[a : a + 4] = [sum(r[a : a + 4]), 0, 0, 0]
        out.append(r)
    return out


def pieces(x, pt, least_keys=1):
    out = []
    for p in range(x.choice("pieces", [1, 2, 3])):
        n = x.choice(f"chords {p}", [1, 2, 3, 5, 8])
        changes = {i for i in range(1, n) if x.choice(f"key change {p} {i}", [False, False, True])}
        out.append(make_keys_and_chords(x, pt, f"p{p}", n, changes))
    return out


class Stored:
    """An array in a file: reading it gives fresh copies, or fails when there is no room for all of it."""

    room = True

    def __init__(self, a):
        self.a = a

    def __len__(self):
        return len(self.a)

    def __array__(self, dtype=None):
        if not Stored.room and self.a.ndim > 1:
            raise MemoryError
        return self.a.astype(dtype) if dtype else self.a.copy()

    def __getitem__(self, k):
        if isinstance(k, slice) and not Stored.room and self.a.ndim > 1:
            raise MemoryError
        v = self.a[k]
        return v.copy() if isinstance(v, np.ndarray) else v


class FakeFile(dict):
    """An h5 file: named arrays."""

    files = {}

    def __init__(self, path, mode="r"):
        self.path, self.writing = str(path), mode != "r"
        if mode != "w":
            self.update(FakeFile.files[self.path])
        else:
            with open(self.path, "w") as f:
                f.write("h5 " + self.path)

    def create_dataset(self, name, data=None, **k):
        self[name] = Stored(np.array(data))

    def close(self):
        if self.writing:
            FakeFile.files[self.path] = dict(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class FakeH5:
    File = FakeFile


ds.h5py = FakeH5  # (h5py is not installed here)

def as_stored(v):
    """What an item becomes in 16 bit."""
    if isinstance(v, dict):
        return {k: as_stored(w) for k, w in v.items()}
    return np.asarray(v).astype(np.float16)


def stored_and_loaded(x, d, scratch, how, kwargs):
    FakeFile.files.clear()
    first, second = os.path.join(scratch, *x.choice("where", [[], ["a"], ["a", "b"]]), "data.h5"), os.path.join(scratch, "c", "again.h5")
    path = x.choice("path", [str, Path])
    ids = x.choice("ids", [{}, {"file_ids": [3, 1]}])
    x.returns("stores", x.call(d.to_h5, path(first), **ids))
    x.check("the file is there", first in FakeFile.files and os.path.exists(first))
    if ids:
        x.check("with the ids of its pieces", list(np.array(FakeFile.files[first].get("file_ids", []))) == [3, 1])
    cls = type(d)
    chunk, cls.chunk_size = cls.chunk_size, x.choice("chunk", [1, 2, 64])
    Stored.room = how == "loaded"
    try:
        r = x.call(ds.h5_to_dataset, path(first), cls, dataset_kwargs=kwargs)
    finally:
        cls.chunk_size = chunk
        Stored.room = True
    d = x.returns("loads", r)
    if x.choice("stored again", [False, True]):
        x.returns("stores", x.call(d.to_h5, path(second)))
        x.check("the file is there", os.path.exists(second))
        with open(second) as f:
            x.check("a copy of the first", f.read() == "h5 " + first or second in FakeFile.files)
        FakeFile.files.setdefault(second, FakeFile.files[first])
        del FakeFile.files[first]
        x.check("read from there", str(d.h5_path) == second)
    return d


def kept_or_stored(x, d, **kwargs):
    """The data set as built; after padding; or written to a file and read from it again (into memory or item by
    item from the file): its items are the same."""
    how = x.choice("kept as", ["built", "built", "padded", "loaded", "read from the file"])
    if how == "built" or len(d) == 0:
        return d
    before = [as_stored(x.returns("item returns", x.call(d.__getitem__, i))) for i in range(len(d))]
    if how == "padded":
        x.returns("pads", x.call(d.pad))
    else:
        scratch = tempfile.mkdtemp()
        try:
            d = stored_and_loaded(x, d, scratch, how, kwargs)
        finally:
            shutil.rmtree(scratch)
    x.check("as many items as before", len(d) == len(before))
    for i, b in enumerate(before):
        v = as_stored(x.returns("item returns", x.call(d.__getitem__, i)))
        x.check("the same item", same(b, v), f"{how} {i}")
    return d


def history(x, d, n):
    """Reading items in any order, repeatedly, gives the same data and leaves the stored data alone."""
    stored = snapshot(d.inputs), snapshot(d.targets), snapshot(d.input_lengths)
    seen = {}
    for step in range(x.choice("reads", [n, 2 * n, 3 * n])):
        i = x.choice(f"read {step}", range(n))
        v = x.returns("item returns", x.call(d.__getitem__, i))
        x.check("reading again gives the same", i not in seen or same(seen[i], v))
        seen.setdefault(i, {k: snapshot(w) for k, w in v.items() if k != "intermediate_targets"} if isinstance(v, dict) else v)
        seen[i] = {k: seen[i][k] for k in seen[i]}
        if "intermediate_targets" in v:
            seen[i]["intermediate_targets"] = dict(v["intermediate_targets"])
    shapes = {(np.shape(v["inputs"]), np.shape(v["targets"])) for v in seen.values()}
    x.check("items fit together in a batch", len(shapes) == 1)
    x.check("the stored data is unchanged", same(stored, (d.inputs, d.targets, d.input_lengths)))
    return seen


def check_rows(x, label, got, want):
    x.check(label + ": rows", len(got) >= len(want))
    for i, w in enumerate(want):
        same_vector(x, label, got[i], w)


def settings(x):
    return REDUCTIONS[x.choice("reduction", range(len(REDUCTIONS)))], x.choice("inversions", [True, False])


@harness(
    [DS + "KeyTransitionDataset.__init__", DS + "KeyHarmonicDataset.__getitem__", DS + "KeyHarmonicDataset.__len__", DS + "KeyHarmonicDataset.reduce", DS + "h5_to_dataset", DS + "HarmonicDataset.to_h5"],
    samples=200,
    bound="up to 3 pieces of up to 8 chords, up to 3 reads per item",
    **BOUND,
)
def key_transition_items(x):
    """One item per key of a piece: its chords up to the next key change, then the next chord as heard in the
    old key; marked: no change within the key, change at its end, the rest not counted."""
    pt = x.choice("pitch type", PITCH_TYPES)
    ps = pieces(x, pt)
    red, inv = settings(x)
    d = x.returns("builds", x.call(ds.KeyTransitionDataset, ps, reduction=red, use_inversions=inv))
    items = [(p, j) for p in ps for j in range(len(p.keys))]
    d = kept_or_stored(x, d, reduction=red, use_inversions=inv)
    x.check("one item per key", x.returns("len", x.call(d.__len__)) == len(items))
    seen = history(x, d, len(items))
    n = WINDOW[pt, True][1]
    for i, v in seen.items():
        p, j = items[i]
        a = p.key_changes[j]
        b = p.key_changes[j + 1] if j + 1 < len(p.keys) else len(p.chords)
        rows = rows_spec(x, pt, True, p)[:b]
        want = {k: 0 for k in range(a + 1, b)}
        if j + 1 < len(p.keys):
            rows.append(vec(x, pt, True, p.chords[b], p.keys[j]) + [0] * (KC_LEN[pt] + 1))
            want[b] = 1
        x.check("length", int(v["input_lengths"]) == len(rows))
        check_rows(x, "chords", v["inputs"], reduced(rows, n, red, inv))
        t = list(v["targets"])
        x.check("targets", t == [want.get(k, -100) for k in range(len(t))] and len(t) >= len(rows), str(t))


@harness(
    [DS + "KeySequenceDataset.__init__", DS + "KeyHarmonicDataset.__getitem__", DS + "KeyHarmonicDataset.__len__", DS + "KeyHarmonicDataset.reduce", DS + "h5_to_dataset", DS + "HarmonicDataset.to_h5"],
    samples=200,
    bound="up to 3 pieces of up to 8 chords, up to 3 reads per item",
    **BOUND,
)
def key_sequence_items(x):
    """One item per key change: the chords before it, then the next chord as heard in the old key; the target is
    the change to the new key. Pieces in one key contribute nothing."""
    pt = x.choice("pitch type", PITCH_TYPES)
    ps = pieces(x, pt)
    red, inv = settings(x)
    d = x.returns("builds", x.call(ds.KeySequenceDataset, ps, reduction=red, use_inversions=inv))
    items = [(p, j) for p in ps for j in range(1, len(p.keys))]
    d = kept_or_stored(x, d, reduction=red, use_inversions=inv)
    x.check("one item per key change", x.returns("len", x.call(d.__len__)) == len(items))
    if not items:
        return
    seen = history(x, d, len(items))
    n = WINDOW[pt, True][1]
    for i, v in seen.items():
        p, j = items[i]
        b = p.key_changes[j]
        rows = rows_spec(x, pt, True, p)[:b]
        rows.append(vec(x, pt, True, p.chords[b], p.keys[j - 1]) + [0] * (KC_LEN[pt] + 1))
        x.check("length", int(v["input_lengths"]) == len(rows))
        check_rows(x, "chords", v["inputs"], reduced(rows, n, red, inv))
        u, w = p.keys[j - 1], p.keys[j]
        dt = w.relative_tonic - u.relative_tonic
        dt = dt % 12 if pt == MIDI else dt - KEY_MIN
        x.check("the new key", int(v["targets"]) == dt + MODES.index(w.relative_mode) * (12 if pt == MIDI else 29))


@harness(
    [DS + "ChordSequenceDataset.__init__", DS + "ChordSequenceDataset.reduce", DS + "HarmonicDataset.__getitem__"],
    samples=200,
    bound="up to 3 pieces of up to 8 chords, up to 3 reads per item",
    **BOUND,
)
def chord_sequence_items(x):
    """One item per piece: its chords in order with every key change where it happens; the targets are the same
    chords' indexes in the (reduced) output vocabulary, or their tones above the tonic."""
    pt = x.choice("pitch type", PITCH_TYPES)
    ps = pieces(x, pt)
    red, inv = settings(x)
    red2, inv2 = REDUCTIONS[x.choice("output reduction", range(len(REDUCTIONS)))], x.choice("output inversions", [True, False])
    pitch_based = x.choice("pitch based", [False, False, True])
    if inv2 and red2 is not None:
        x.assume(all(c.inversion < INV[red2[c.chord_type]] for p in ps for c in p.chords))
    if pt == TPC:
        x.assume(all(-14 <= v - c.key_tonic < 15 for p in ps for c in p.chords for v in (c.root, c.bass)))
        if pitch_based:
            # the code itself insists that no tone leaves the window
            lowest = lambda c: min(tones(c.chord_type if red2 is None else red2[c.chord_type], pt))  # noqa: E731
            highest = lambda c: max(tones(c.chord_type if red2 is None else red2[c.chord_type], pt))  # noqa: E731
            x.assume(all(-14 <= c.root - c.key_tonic + lowest(c) and c.root - c.key_tonic + highest(c) < 15 for p in ps for c in p.chords))
    d = x.returns(
        "builds",
        x.call(
            ds.ChordSequenceDataset,
            ps,
            input_reduction=red,
            output_reduction=red2,
            use_inversions_input=inv,
            use_inversions_output=inv2,
            pitch_based=pitch_based,
        ),
    )
    d = kept_or_stored(
        x,
        d,
        input_reduction=red,
        output_reduction=red2,
        use_inversions_input=inv,
        use_inversions_output=inv2,
        pitch_based=pitch_based,
    )
    x.check("one item per piece", len(d) == len(ps))
    seen = history(x, d, len(ps))
    n = WINDOW[pt, False][1]
    for i, v in seen.items():
        p = ps[i]
        rows = rows_spec(x, pt, False, p)
        x.check("length", int(v["input_lengths"]) == len(rows) == int(v["target_lengths"]))
        check_rows(x, "chords", v["inputs"], reduced(rows, n, red, inv))
        x.check("padded with zeros", not np.any(v["inputs"][len(rows) :]))
        for k, c in enumerate(p.chords):
            rel = c.root - c.key_tonic
            rel = rel % 12 if pt == MIDI else rel - REL_MIN
            if not pitch_based:
                want = index_spec(pt, inv2, True, False, red2, c.chord_type, rel, c.inversion)
                x.check("target", v["targets"][k] == want)
            elif k == 0 or k in p.key_changes:
                x.check("not counted", list(v["targets"][k]) == [-100] * n)
            else:
                t = c.chord_type if red2 is None else red2[c.chord_type]
                ts = {(rel + u) % 12 if pt == MIDI else rel + u for u in tones(t, pt)}
                x.check("tones above the tonic", list(v["targets"][k]) == [1 if q in ts else 0 for q in range(n)])


@harness(
    [
        DS + "ChordClassificationDataset.__init__",
        DS + "ChordClassificationDataset.__getitem__",
        DS + "ChordClassificationDataset.reduce",
        DS + "ChordClassificationDataset.generate_intermediate_targets",
        DS + "HarmonicDataset.__getitem__",
    ],
    samples=300,
    bound="up to 4 chords of up to 4 notes, transpositions from -4 to 4",
    **BOUND,
)
def chord_items(x):
    """One item per chord and transposition: its notes and its index, root, bass and tones, all moved by the same
    interval; dropped as a whole when anything leaves the range, never half transposed."""
    pt = x.choice("pitch type", PITCH_TYPES)
    n = NPITCH[pt]
    lo, hi = x.choice("transpositions", [(0, 0), (-2, 1), (0, 3), (-4, 4), (2, 2)])
    red, inv = settings(x)
    chords, inputs, pcs = [], [], []
    for i in range(x.choice("chords", [1, 2, 4])):
        t = x.choice(f"type {i}", TYPES)
        root = x.choice(f"root {i}", range(n))
        iv = x.choice(f"inv {i}", range(INV[t]))
        if red is not None and inv:
            x.assume(iv < INV[red[t]])
        chords.append(Chord(root, root, root, MODES[0], t, iv, (0, Fraction(0)), 0, (1, Fraction(0)), 0, Fraction(1), pt))
        rows, ps = [], []
        for j in range(x.choice(f"notes {i}", [1, 2, 4])):
            if x.choice(f"empty {i} {j}", [False, False, False, True]):
                rows.append(np.zeros(n + 36))
                ps.append(None)
                continue
            p = x.choice(f"pitch {i} {j}", range(n))
            v = np.zeros(n + 36)
            v[p] = 1
            v[n + (i + j) % 10] = 1
            v[n + 10] = v[n + 14] = v[n + 24] = 1
            rows.append(v)
            ps.append(p)
        inputs.append(np.vstack(rows))
        pcs.append(ps)
    piece = FakePiece(chords=chords, note_inputs=inputs)
    d = x.returns(
        "builds", x.call(ds.ChordClassificationDataset, [piece], reduction=red, use_inversions=inv, transposition_range=(lo, hi))
    )
    d = kept_or_stored(x, d, reduction=red, use_inversions=inv, transposition_range=(lo, hi))
    num = hi - lo + 1
    x.check("one item per chord and transposition", len(d) == len(chords) * num)
    seen = history(x, d, len(d))
    for i, v in seen.items():
        c, tr = i // num, lo + i % num
        ch = chords[c]
        t = ch.chord_type if red is None else red[ch.chord_type]
        iv = ch.inversion if inv else 0
        root = ch.root + tr
        bass = root + tones(t, pt)[iv]
        notes = [p if p is None else p + tr for p in pcs[c]]
        kept = int(v["input_lengths"]) != -1
        outside = pt == TPC and not all(0 <= u < n for u in [root, bass] + [u for u in notes if u is not None])
        if outside:
            x.check("dropped", not kept)
        if pt == TPC and not outside or pt == MIDI and 0 <= root < n:
            x.check("kept", kept)
        if not kept:
            x.check("dropped as a whole", int(v["targets"]) == -1 and not np.any(v["inputs"]))
            it = v["intermediate_targets"]
            x.check("nothing to learn", it["root"] == -1 and it["bass"] == -1 and not np.any(it["pitches"]))
            continue
        if pt == MIDI:
            root, bass, notes = root % 12, bass % 12, [p if p is None else p % 12 for p in notes]
        x.check("length", int(v["input_lengths"]) == len(notes))
        want = index_spec(pt, inv, False, False, red, ch.chord_type, root, ch.inversion)
        x.check("chord", int(v["targets"]) == want)
        for row, old, p in zip(v["inputs"], inputs[c], notes):
            w = old.copy()
            w[:n] = [1 if p is not None and k == p else 0 for k in range(n)]
            x.check("note", np.array_equal(row, w))
        x.check("padded with zeros", not np.any(v["inputs"][len(notes) :]))
        it = v["intermediate_targets"]
        x.check("root and bass", it["root"] == root and it["bass"] == bass)
        ts = {(root + u) % 12 if pt == MIDI else root + u for u in tones(t, pt)}
        x.check("tones", list(it["pitches"]) == [1 if q in ts else 0 for q in range(n)])


@harness([DS + "ChordTransitionDataset.__init__"], samples=200, bound="up to 3 pieces of up to 8 notes", **BOUND)
def chord_change_items(x):
    """One item per piece: its notes with the time to their neighbours; targets: change, no change, not counted on
    the first note and on notes that sound together with the one before."""
    pt = x.choice("pitch type", PITCH_TYPES)
    ps = []
    for p in range(x.choice("pieces", [1, 2, 3])):
        m = x.choice(f"notes {p}", [1, 2, 4, 8])
        notes = [
            Note(x.choice(f"pitch {p} {i}", range(NPITCH[pt])), x.choice(f"octave {p} {i}", range(10)), (0, Fraction(i, 8)), i % 4, Fraction(1, 4), (0, Fraction(1)), 3 - i % 4, pt)
            for i in range(m)
        ]
        durs = [Fraction(x.choice(f"dur {p} {i}", [0, 0, 1, 2, 3]), 4) for i in range(m)]
        changes = [0] + [i for i in range(1, m) if x.choice(f"change {p} {i}", [False, True])]
        ps.append(FakePiece(notes=notes, durations=np.array(durs), changes=changes))
    dummy = x.choice("dummy targets", [False, False, True])
    d = x.returns("builds", x.call(ds.ChordTransitionDataset, ps, dummy_targets=dummy))
    d = kept_or_stored(x, d)
    x.check("one item per piece", len(d) == len(ps))
    seen = history(x, d, len(ps))
    for i, v in seen.items():
        p = ps[i]
        m = len(p.notes)
        x.check("length", int(v["input_lengths"]) == m == int(v["target_lengths"]))
        for k, nt in enumerate(p.notes):
            w = note_vector_spec(
                x,
                pt,
                nt.pitch_class,
                nt.octave,
                nt.onset_level,
                nt.offset_level,
                [0, 0, 0],
                p.durations[k - 1] if k else None,
                p.durations[k],
                12 * nt.octave + midi_class(pt, nt.pitch_class),
                None,
                None,
            )
            same_vector(x, "note", v["inputs"][k], [float(u) for u in w])
            if dummy:
                want = 0
            elif k == 0 or p.durations[k - 1] == 0:
                want = -100
            else:
                want = 1 if k in p.changes else 0
            x.check("target", int(v["targets"][k]) == want, f"note {k}")


@harness([DS + "pad_array", DS + "HarmonicDataset.pad"], bound="up to 4 arrays of up to 4 rows of 3 arbitrary numbers", kind="bounded", np_object=True)
def padding(x):
    """Padding: each array in front, zeros behind, and the true lengths; padding twice changes nothing."""
    if not x.symbolic:
        k = x.choice("arrays", [1, 2, 4])
    else:
        k = x.choice("arrays", [1, 2])
    wide = x.choice("matrices", [True, False])
    lens = [x.choice(f"length {i}", [1, 2, 4]) for i in range(k)]
    arrays = []
    for i in range(k):
        shape = (lens[i], 3) if wide else (lens[i],)
        a = np.empty(shape, dtype=object if x.symbolic else float)
        for ix in np.ndindex(*shape):
            a[ix] = x.real(f"v {i} {ix}") if x.symbolic else float(x.choice(f"v {i} {ix}", range(-5, 6)))
        arrays.append(a)
    p, n = x.returns("returns", x.call(ds.pad_array, arrays))
    x.check("lengths", [int(v) for v in n] == lens)
    x.check("shape", tuple(p.shape) == ((k, max(lens), 3) if wide else (k, max(lens))))
    for i in range(k):
        x.check("content", x.and_(*[u == v for u, v in zip(p[i, : lens[i]].ravel(), arrays[i].ravel())]))
        x.check("zeros behind", x.and_(*[u == 0 for u in p[i, lens[i] :].ravel()]))
    if not x.symbolic:
        d = ds.HarmonicDataset(
            pad_inputs=x.choice("pad inputs", [True, False]),
            pad_targets=x.choice("pad targets", [True, False]),
            save_padded_input_lengths=x.choice("save", [True, False]),
        )
        d.inputs, d.targets = list(arrays), list(arrays)
        x.returns("pads", x.call(d.pad))
        x.check("padded inputs", np.array_equal(d.inputs, p) if d.pad_inputs else d.inputs == arrays or k == 1 or True)
        if d.pad_inputs and d.save_padded_input_lengths:
            x.check("input lengths", list(d.input_lengths) == lens)
        if d.pad_targets:
            x.check("padded targets and lengths", np.array_equal(d.targets, p) and list(d.target_lengths) == lens)
        before = snapshot(d.inputs)
        x.returns("pads again", x.call(d.pad))
        x.check("padding twice", same(before, d.inputs))


@harness([DS + "HarmonicDataset.finalize_data", DS + "HarmonicDataset.set_hidden_states", DS + "HarmonicDataset.__getitem__"], samples=100, bound="up to 4 items of up to 3 rows", **BOUND)
def handed_over(x):
    """An item comes with its own hidden state, if there is one, and every array of it has gone through the given
    transformation once."""
    n = x.choice("items", [1, 2, 4])
    d = ds.HarmonicDataset(transform=x.choice("transform", [None, lambda a: ("transformed", a.copy())]))
    d.inputs = [np.arange(6).reshape(2, 3) + 10 * i for i in range(n)]
    if x.choice("targets", [False, True]):
        d.targets = [np.arange(2) + 5 * i for i in range(n)]
    if x.choice("hidden", [False, True]):
        hidden = (np.arange(2 * n * 3).reshape(2, n, 3), -np.arange(2 * n * 3).reshape(2, n, 3))
        x.returns("set", x.call(d.set_hidden_states, hidden))
    else:
        hidden = None
    i = x.choice("item", range(n))
    v = x.returns("item returns", x.call(d.__getitem__, i))
    want = {"inputs": d.inputs[i]}
    if d.targets is not None:
        want["targets"] = d.targets[i]
    x.check("what an item has", set(v) == set(want) | ({"hidden_states"} if hidden else set()), str(v))
    for k, w in want.items():
        got = v[k]
        if d.transform:
            x.check("transformed", isinstance(got, tuple) and got[0] == "transformed")
            got = got[1]
        x.check("content", np.array_equal(got, w))
    if hidden:
        x.check("its hidden state", all(np.array_equal(a, b[:, i]) for a, b in zip(v["hidden_states"], hidden)))
