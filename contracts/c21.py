"""C21: the score's time line: repeats cut out, and where notes, tied notes and chords end on it."""
from common import *
from fractions import Fraction
import random
import warnings
import numpy as np
import pandas as pd
import harmonic_inference.utils.corpus_utils as cu

U = "harmonic_inference.utils.corpus_utils:"
TABLE = dict(
    kind="bounded", symbolic=False, bound="random corpora of at most 3 pieces of at most 7 measures", samples=60, max_seconds=60,
)
Q = Fraction(1, 8)


def frame(rows, index, ints=(), columns=None):
    """A table as read from a corpus: fractions as objects, numbers that can be missing as Int64."""
    names = list(rows[0]) if rows else list(columns)
    d = pd.DataFrame({k: pd.Series([r[k] for r in rows], dtype="Int64" if k in ints else object) for k in names})
    for k in index:
        d[k] = d[k].astype("int64")
    return d.set_index(list(index))


class Corpus:
    """Some pieces: measures of changing length, pickups and split measures, repeats and endings of all kinds."""

    def __init__(self, x, plain=False):
        self.rng = rng = random.Random(x.int("seed", 0, 10 ** 6))
        self.files = sorted(rng.sample(range(9), rng.choice([1, 1, 2, 3])))
        self.rows = []
        for f in self.files:
            n, m0 = rng.choice([1, 2, 3, 5, 7]), rng.choice([0, 1, 1, 4])
            ids = sorted(rng.sample(range(2 * n), n))
            ending = False
            for i in range(n):
                mc = m0 + i
                back = [m0 + rng.randrange(max(i, 1))]
                if i == n - 1:
                    nx = rng.choice([[-1], [], back, back + [-1], [mc + 1]])
                elif ending:
                    nx, ending = back, False
                else:
                    nx = [mc + 1]
                    if not plain:
                        k = rng.random()
                        if k < 0.2:
                            nx = nx + back
                        elif k < 0.45 and i + 2 < n:
                            nx, ending = [mc + 1, mc + 2] + rng.choice([[], back]), True
                        elif k < 0.48:
                            nx = nx + [-1]
                rng.shuffle(nx)
                sig = rng.choice([Fraction(1), Fraction(3, 4), Fraction(1, 2)])
                dur = sig if rng.random() < 0.7 else rng.choice([Fraction(1, 8), Fraction(1, 4), sig / 2])
                off = rng.choice([Fraction(0), sig - dur])
                self.rows.append(
                    dict(file_id=f, measure_id=ids[i], mc=mc, next=tuple(nx), act_dur=dur, mc_offset=off, timesig=f"{int(4 * sig)}/4", mn=mc)
                )
        self.table = frame(self.rows, ["file_id", "measure_id"], ["mc", "mn"])
        # the walk through each piece
        self.then, self.walk = {}, {}
        for f in self.files:
            rows = [r for r in self.rows if r["file_id"] == f]
            for r in rows:
                last = r is rows[-1] or not r["next"] or -1 in r["next"]
                self.then[f, r["mc"]] = None if last else max(r["next"])
            at = rows[0]
            self.walk[f] = [at]
            while self.then[f, at["mc"]] is not None:
                at = next(r for r in rows if r["mc"] == self.then[f, at["mc"]])
                self.walk[f].append(at)
        self.kept = [r for r in self.rows if any(r is q for q in self.walk[r["file_id"]])]
        keep = [dict(r, next=self.then[r["file_id"], r["mc"]]) for r in self.kept]
        keep = [dict(r, next=pd.NA if r["next"] is None else r["next"]) for r in keep]
        self.clean = frame(keep, ["file_id", "measure_id"], ["mc", "mn", "next"])

    def place(self, f, mc, beat):
        """How far into the piece a position is."""
        t = Fraction(0)
        for r in self.walk[f]:
            if r["mc"] == mc:
                return t + beat - r["mc_offset"]
            t += r["act_dur"]

    def position(self, f, t):
        """The position at a distance into the piece: the beginning of a measure rather than the end of the one before."""
        for r in self.walk[f][:-1]:
            if t < r["act_dur"]:
                break
            t -= r["act_dur"]
        else:
            r = self.walk[f][-1]
        return r["mc"], t + r["mc_offset"]

    def length(self, f):
        return sum((r["act_dur"] for r in self.walk[f]), Fraction(0))

    def some_place(self, f):
        return Q / 3 * self.rng.randrange(int(self.length(f) / Q * 3))


def listing(df):
    names = list(df.index.names) + list(df.columns)
    rows = df.reset_index().to_dict("records")
    return [{k: None if v is pd.NA or v is None or v != v else v for k, v in r.items() if k in names} for r in rows]


def check_rows(x, name, df, rows):
    want = [{k: None if v is pd.NA else v for k, v in r.items()} for r in rows]
    x.check(name, listing(df) == want)


def quiet(x, f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return x.returns("returns", x.call(f, *a, **k))


@harness([U + "remove_repeats"], **TABLE)
def repeats(x):
    """Each measure is followed by the latest of its alternatives, the last of a piece by none; measures that can no
    longer be reached from the first one are gone (unless they are to be kept); nothing else changes."""
    c = Corpus(x)
    keep = x.choice("keep unreachable", [False, True])
    before = c.table.copy(deep=True)
    got = quiet(x, cu.remove_repeats, c.table, **({"remove_unreachable": False} if keep else {}))
    rows = c.rows if keep else c.kept
    check_rows(x, "the measures", got, [dict(r, next=c.then[r["file_id"], r["mc"]]) for r in rows])
    x.check("the given table is as it was", before.equals(c.table))


@harness([U + "remove_unmatched"], **TABLE)
def unmatched(x):
    """Exactly the rows whose measure exists in their own piece, in order, unchanged (tables in score order)."""
    c = Corpus(x)
    rng = c.rng
    rows = []
    for f in sorted(set(c.files) | {rng.randrange(9)}):
        ids = sorted(rng.sample(range(12), rng.choice([1, 4, 9])))
        for i, mc in zip(ids, sorted(rng.randrange(9) for _ in ids)):
            rows.append(dict(file_id=f, note_id=i, mc=mc, text=rng.choice("abc")))
    there = {(r["file_id"], r["mc"]) for r in c.kept}
    x.assume(any((r["file_id"], r["mc"]) in there for r in rows))
    df = frame(rows, ["file_id", "note_id"], ["mc"])
    before = df.copy(deep=True)
    got = quiet(x, cu.remove_unmatched, df, c.clean)
    check_rows(x, "rows of existing measures", got, [r for r in rows if (r["file_id"], r["mc"]) in there])
    x.check("the given table is as it was", before.equals(df))


def random_notes(c, many=(1, 2, 6, 12)):
    rows = []
    for f in c.files:
        for i in sorted(c.rng.sample(range(15), c.rng.choice(many))):
            t = c.some_place(f)
            mc, beat = c.position(f, t)
            dur = Q / 3 * c.rng.choice([0, 1, 2, 3, 4, 6, 9, 12, 24, 36, 48, 72])
            if c.rng.random() < 0.3:
                # to the end of some later measure
                ends = [c.place(f, r["mc"], r["mc_offset"]) + r["act_dur"] for r in c.walk[f]]
                dur = c.rng.choice([e - t for e in ends if e > t])
            rows.append(dict(file_id=f, note_id=i, mc=mc, mn_onset=beat, duration=dur, midi=60))
    return rows


@harness([U + "add_note_offsets"], **TABLE)
def note_ends(x):
    """Each note ends its duration after it begins, counted through the measures that follow; at the beginning of a
    measure rather than at the end of the one before; past the end of the piece: counted in its last measure."""
    c = Corpus(x)
    rows = random_notes(c)
    raw = x.choice("repeats not yet removed", [False, False, True])
    df = frame(rows, ["file_id", "note_id"], ["mc", "midi"])
    before = df.copy(deep=True)
    got = quiet(x, cu.add_note_offsets, df, c.table if raw else c.clean)
    want = []
    for r in rows:
        f = r["file_id"]
        mc, beat = c.position(f, c.place(f, r["mc"], r["mn_onset"]) + r["duration"])
        if not r["duration"]:
            mc, beat = r["mc"], r["mn_onset"]
        want.append(dict(r, offset_mc=mc, offset_beat=beat))
    check_rows(x, "notes with their ends", got, want)
    x.check("the given table is as it was", before.equals(df))


@harness([U + "add_chord_metrical_data"], **TABLE)
def chord_ends(x):
    """Each chord lasts to the next chord of its piece, the last one to the end of the piece: that position, and the
    time to it, counted through the measures between."""
    c = Corpus(x)
    rows = []
    for f in c.files:
        places = sorted(c.some_place(f) for _ in range(c.rng.choice([1, 2, 5, 9])))
        for i, t in zip(sorted(c.rng.sample(range(15), len(places))), places):
            mc, beat = c.position(f, t)
            rows.append(dict(file_id=f, chord_id=i, mc=mc, mn_onset=beat, timesig="4/4", numeral=c.rng.choice(["I", "V"])))
    raw = x.choice("repeats not yet removed", [False, False, True])
    df = frame(rows, ["file_id", "chord_id"], ["mc"])
    before = df.copy(deep=True)
    got = quiet(x, cu.add_chord_metrical_data, df, c.table if raw else c.clean)
    want = []
    for r, q in zip(rows, rows[1:] + [None]):
        f = r["file_id"]
        if q is not None and q["file_id"] == f:
            mc, beat = q["mc"], q["mn_onset"]
        else:
            m = c.walk[f][-1]
            mc, beat = m["mc"], m["mc_offset"] + m["act_dur"]
        dur = c.place(f, mc, beat) - c.place(f, r["mc"], r["mn_onset"])
        want.append(dict(r, mc_next=mc, mn_onset_next=beat, duration=dur))
    check_rows(x, "chords with their ends", got, want)
    x.check("the given table is as it was", before.equals(df))


@harness([U + "merge_ties"], **TABLE)
def ties(x):
    """Notes tied together become one note: from the first one's onset to the last one's end, lasting as long as all of
    them. Ties without end or beginning stay marked as such; other notes and grace notes are untouched."""
    c = Corpus(x, plain=True)
    rng = c.rng
    rows, want = [], []
    for f in c.files:
        pitches = list(range(40, 90))
        rng.shuffle(pitches)
        groups = []
        for _ in range(rng.choice([1, 2, 4, 6])):
            p = pitches.pop()
            # several parts may tie the same pitch at the same time: complete chains, told apart by staff and voice
            parts = rng.sample([(1, 1), (1, 2), (2, 1), (2, 2)], rng.choice([1, 1, 1, 2, 3]))
            for staff, voice in parts:
                groups.append((p, staff, voice, len(parts) == 1))
        ids = list(range(200))
        rng.shuffle(ids)
        used = {}
        for p, staff, voice, alone in groups:
            t, chain = c.some_place(f) if alone or rng.random() < 0.5 else used.get(p, Fraction(0)), []
            t = used[p] = Fraction(int(t / Q)) * Q
            size = rng.choice([1, 1, 2, 3, 5]) if alone else rng.choice([2, 3, 4])
            for i in range(size):
                d = Q * rng.choice([1, 2, 3, 8])
                (mc, beat), (omc, obeat) = c.position(f, t), c.position(f, t + d)
                grace = pd.NA
                chain.append(
                    dict(
                        file_id=f, note_id=ids.pop(), mc=mc, mn_onset=beat, duration=d, midi=p, staff=staff, voice=voice,
                        gracenote=grace, tied=0, offset_mc=omc, offset_beat=obeat, tpc=rng.randrange(6),
                    )
                )
                t += d
            marks = [0] * size
            if size == 1:
                marks = [rng.choice([pd.NA, pd.NA, 1, 0, -1])]
            else:
                marks[0] = 1 if not alone else rng.choice([1, 1, 1, 0])
                marks[-1] = -1 if not alone else rng.choice([-1, -1, -1, 0])
            for r, m in zip(chain, marks):
                r["tied"] = m
            if size == 1 and rng.random() < 0.3:
                chain[0]["gracenote"] = "acciaccatura"
            rows += chain
            one = dict(chain[0])
            if size > 1:
                one["duration"] = sum((r["duration"] for r in chain), Fraction(0))
                one["offset_mc"], one["offset_beat"] = chain[-1]["offset_mc"], chain[-1]["offset_beat"]
                one["tied"] = marks[0] + marks[-1] if 0 in (marks[0], marks[-1]) else pd.NA
            want.append(one)
            if rng.random() < 0.3:
                # a grace note of the same pitch right where it begins, goes on or ends, tied as if it belonged to it
                at = rng.choice(chain)
                mc, beat = rng.choice([(at["mc"], at["mn_onset"]), (at["offset_mc"], at["offset_beat"])])
                ornament = dict(
                    at, note_id=ids.pop(), mc=mc, mn_onset=beat, duration=Fraction(0), offset_mc=mc, offset_beat=beat,
                    gracenote=rng.choice(["grace16", "acciaccatura"]), tied=rng.choice([1, 0, -1]),
                )
                rows.append(ornament)
                want.append(dict(ornament))
    key = lambda r: (r["file_id"], r["note_id"])  # noqa: E731
    rows.sort(key=key)
    want.sort(key=key)
    df = frame(rows, ["file_id", "note_id"], ["mc", "midi", "staff", "voice", "tied", "offset_mc", "tpc"])
    before = df.copy(deep=True)
    check_rows(x, "notes, ties merged", quiet(x, cu.merge_ties, df), want)
    x.check("the given table is as it was", before.equals(df))
