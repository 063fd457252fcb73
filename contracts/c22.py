"""C22: from corpus files to pieces and splits: nothing lost, nothing mixed up between pieces."""
from common import *
from fractions import Fraction
import contextlib
import csv
import io
import logging
import os
import pickle
import random
import shutil
import tempfile
import warnings
from pathlib import Path
import numpy as np
import pandas as pd
from c21 import Corpus, Q, listing, check_rows
from pyvc.instrument import LoopContract
from pyvc.seq import Seq
from pyvc.smt import INT, REAL
from pyvc.sym import Unsupported
import harmonic_inference.data.corpus_reading as cr
import harmonic_inference.data.datasets as ds
import harmonic_inference.data.piece as pm
import harmonic_inference.utils.data_utils as du

R = "harmonic_inference.data.corpus_reading:"
K = "harmonic_inference.data.corpus_constants:"
D = "harmonic_inference.data.datasets:"
U = "harmonic_inference.utils.data_utils:"


def abstract(x):
    return x.symbolic and x.mode_unroll is None


class O:
    def __init__(self, **k):
        self.__dict__.update(k)


@contextlib.contextmanager
def scratch():
    """A scratch directory; tables are read by pandas' own python reader (its C reader does not run here)."""
    d, reader = tempfile.mkdtemp(), pd.read_csv
    pd.read_csv = lambda *a, **k: reader(*a, **{**{q: v for q, v in k.items() if q != "low_memory"}, "engine": "python"})
    try:
        with contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            logging.disable(logging.CRITICAL)
            yield d
    finally:
        logging.disable(logging.NOTSET)
        pd.read_csv = reader
        shutil.rmtree(d)


def text(v):
    if v is None or v is pd.NA:
        return ""
    if isinstance(v, tuple):
        return ", ".join(str(e) for e in v)
    if isinstance(v, bool):
        return str(int(v))
    return str(v)


def write(path, rows):
    with open(path, "w", newline="") as f:
        w = csv.writer(f, delimiter="\t", lineterminator="\n")
        w.writerow(list(rows[0]))
        for r in rows:
            w.writerow([text(v) for v in r.values()])


class Files(Corpus):
    """A corpus with notes (some of them tied, some misplaced) and chords, as it lies on disk."""

    def __init__(self, x, chords=True):
        super().__init__(x)
        rng = self.rng
        self.names = {f: (rng.choice(["corpus", "other"]), f"piece{f}.tsv") for f in self.files}
        self.notes, self.want_notes, self.chords, self.want_chords = [], [], [], []
        for f in self.files:
            self._notes(f)
            if chords and (len(self.files) == 1 or f == self.files[-1] or rng.random() < 0.8):
                self._chords(f)

    def _notes(self, f):
        rng, chains = self.rng, []
        pitches = rng.sample(range(48, 80), 12)
        for p in pitches[: rng.choice([1, 3, 8])]:
            t, marks = Fraction(int(self.some_place(f) / Q)) * Q, rng.choice([[None], [None], [1, -1], [1, 0, -1], [1], [-1], [0, -1]])
            chain = []
            for m in marks:
                if t >= self.length(f):
                    break
                d = Q * rng.choice([1, 2, 3, 8])
                mc, beat = self.position(f, t)
                chain.append(dict(file_id=f, mc=mc, mn_onset=beat, duration=d, midi=p, staff=1, voice=1, gracenote=None, tied=m, t=t))
                t += d
            if len(chain) < len(marks):
                for r in chain:
                    r["tied"] = None
                chain = chain[:1]
            chains.append((chain, True))
        # notes in measures that are not played, or outside of their measure
        gone = [r for r in self.rows if r["file_id"] == f and not any(r is q for q in self.kept)]
        for r in gone:
            if rng.random() < 0.7:
                chains.append(([dict(file_id=f, mc=r["mc"], mn_onset=r["mc_offset"], duration=Q, midi=90, staff=1, voice=1, gracenote=None, tied=None, t=0)], False))
        for r in self.walk[f]:
            if rng.random() < 0.2:
                beat = rng.choice([r["mc_offset"] + r["act_dur"], r["mc_offset"] - Q])
                chains.append(([dict(file_id=f, mc=r["mc"], mn_onset=beat, duration=Q, midi=91, staff=1, voice=1, gracenote=None, tied=None, t=0)], False))
        rows = [(r["mc"], r["mn_onset"], i, j) for i, (c, _) in enumerate(chains) for j, r in enumerate(c)]
        rows.sort()
        for k, (_, _, i, j) in enumerate(rows):
            r = chains[i][0][j]
            r["note_id"] = k
            self.notes.append({k: v for k, v in dict(file_id=f, note_id=k, **{a: b for a, b in r.items() if a not in ("file_id", "note_id")}).items() if k != "t"})
        want = []
        for chain, good in chains:
            if good:
                r = dict(chain[0])
                r["duration"] = sum((q["duration"] for q in chain), Fraction(0))
                r["offset_mc"], r["offset_beat"] = self.position(f, r.pop("t") + r["duration"])
                if len(chain) > 1:
                    a, b = chain[0]["tied"], chain[-1]["tied"]
                    r["tied"] = a + b if 0 in (a, b) else None
                want.append(r)
        self.want_notes += sorted(want, key=lambda r: r["note_id"])

    def _chords(self, f):
        rng, rows = self.rng, []
        places = sorted({self.some_place(f) for _ in range(rng.choice([1, 2, 5]))})
        for t in places:
            mc, beat = self.position(f, t)
            rows.append((t, dict(mc=mc, mn_onset=beat, numeral=rng.choice(["I", "V", "ii"]), timesig="4/4"), True))
            if rng.random() < 0.2:
                # one that says nothing
                rows.append((t, dict(mc=mc, mn_onset=beat, numeral=rng.choice(["@none", None]), timesig="4/4"), False))
            if rng.random() < 0.2:
                # one that is at once followed by another
                rows[-1:] = [(t, dict(rows[-1][1], numeral="IV"), False), rows[-1]]
                if rows[-1][2] is False and rows[-1][1]["numeral"] in ("@none", None):
                    rows[-2:] = rows[-1:]
        for m in self.walk[f]:
            if rng.random() < 0.15:
                t = self.place(f, m["mc"], m["mc_offset"] + m["act_dur"])
                rows.append((t - Q / 100, dict(mc=m["mc"], mn_onset=m["mc_offset"] + m["act_dur"], numeral="I", timesig="4/4"), False))
        rows.sort(key=lambda r: r[0])
        good = []
        for k, (t, r, ok) in enumerate(rows):
            r = dict(file_id=f, chord_id=k, globalkey_is_minor=rng.choice([True, False]), **r)
            self.chords.append(r)
            if ok:
                good.append((t, r))
        end = self.walk[f][-1]
        for (t, r), nx in zip(good, good[1:] + [None]):
            if nx is None:
                to, mc, beat = self.length(f), end["mc"], end["mc_offset"] + end["act_dur"]
            else:
                to, mc, beat = nx[0], nx[1]["mc"], nx[1]["mn_onset"]
            self.want_chords.append(dict(r, mc_next=mc, mn_onset_next=beat, duration=to - t))

    def save(self, d, old_names=False):
        write(os.path.join(d, "files.tsv"), [dict(file_id=f, corpus_name=a, file_name=b) for f, (a, b) in self.names.items()])
        rename = {}
        if old_names:
            # tables in which positions are partly given under their former names
            half = lambda rows, new, old: [  # noqa: E731
                {**r, old: r[new] if i % 2 else None, new: None if i % 2 else r[new]} for i, r in enumerate(rows)
            ]
            rename = dict(m=half(self.rows, "mc_offset", "offset"), n=half(self.notes, "mn_onset", "onset"), c=half(self.chords, "mn_onset", "onset"))
        write(os.path.join(d, "measures.tsv"), rename.get("m", self.rows))
        write(os.path.join(d, "notes.tsv"), rename.get("n", self.notes))
        if self.chords:
            write(os.path.join(d, "chords.tsv"), rename.get("c", self.chords))


CORPUS = dict(kind="bounded", symbolic=False, bound="random corpora of at most 3 pieces of at most 7 measures", samples=40, max_seconds=60)


@harness([R + "load_clean_corpus_dfs", R + "read_dump", K + "str2inttuple", K + "str2frac", K + "int2bool"], **CORPUS)
def loaded(x):
    """Of each piece: the measures that are played, the notes in them with their ends and ties merged, the chords in
    them that say something and last, each up to the next; everything else as it was in the files."""
    c = Files(x, x.choice("annotated", [True, True, True, False]))
    count = x.choice("count", [None, None, 1, 2])
    if count is not None and {r["file_id"] for r in c.chords} != set(c.files) and c.chords:
        count = None
    old = x.choice("old names", [False, False, True])
    with scratch() as d:
        c.save(d, old)
        got = x.returns("returns", x.call(cr.load_clean_corpus_dfs, d, **({} if count is None else {"count": count})))
    fs, ms, cs, ns = got
    keep = c.files[:count]
    check_rows(x, "the pieces", fs, [dict(file_id=f, corpus_name=c.names[f][0], file_name=c.names[f][1]) for f in keep])
    of = lambda rows: [r for r in rows if r["file_id"] in keep]  # noqa: E731
    check_rows(x, "the measures", ms, [dict(r, next=c.then[r["file_id"], r["mc"]]) for r in of(c.kept)])
    order = lambda rows, df: [{k: r[k] for k in list(df.index.names) + list(df.columns)} for r in rows]  # noqa: E731
    x.check("the notes", listing(ns) == order(of(c.want_notes), ns) and set(ns.columns) >= set(c.want_notes[0]) - {"file_id", "note_id"})
    if not c.chords:
        x.check("no chords", cs is None)
    else:
        x.check("the chords", listing(cs) == order(of(c.want_chords), cs) and set(cs.columns) >= {"mc_next", "mn_onset_next", "duration"})


@harness([R + "aggregate_annotation_dfs"], **dict(CORPUS, bound="random directories of at most 5 files", samples=60))
def aggregated(x):
    """One numbered entry per file found; in each combined table the rows of every file that has that table, in order,
    under the file's number, as they were written."""
    rng = random.Random(x.int("seed", 0, 10 ** 6))
    only = x.choice("notes only", [False, False, True])
    found, kinds = {}, ("harmonies", "notes", "measures")
    with scratch() as d:
        top = os.path.join(d, "in")
        for i in range(rng.randrange(6)):
            corpus, name = rng.choice(["a", "b", "deep/c"]), f"f{rng.randrange(4)}.tsv"
            if (corpus, name) in found:
                continue
            found[corpus, name] = {}
            for k in kinds:
                if rng.random() < 0.75:
                    rows = [{"mc": str(j + rng.randrange(3)), "text": rng.choice(["I", "V7", "1/2"]), "number": rng.choice(["03", "4", "", "1.50"]), **({"extra": "e"} if rng.random() < 2 and i % 2 else {})} for j in range(rng.choice([1, 2, 4]))]
                    os.makedirs(os.path.join(top, corpus, k), exist_ok=True)
                    write(os.path.join(top, corpus, k, name), rows)
                    found[corpus, name][k] = rows
        out = os.path.join(d, "out", "there")
        x.returns("returns", x.call(cr.aggregate_annotation_dfs, top, out, **({"notes_only": True} if only else {})))
        main = "notes" if only else "harmonies"
        use = {n: v for n, v in found.items() if main in v}

        def table(name):
            p = os.path.join(out, name + ".tsv")
            if not os.path.exists(p):
                return None
            with open(p, newline="") as f:
                return list(csv.DictReader(f, delimiter="\t"))

        files = table("files")
        got = {k: table(n) for k, n in zip(kinds, ("chords", "notes", "measures"))}
    if not use:
        x.check("nothing found, nothing written", files is None and not any(got.values()))
        return
    ids = {(r["corpus_name"], r["file_name"]): r[""] for r in files}
    x.check("one entry per file", len(files) == len(use) and set(ids) == {(c.split("/")[-1], n) for c, n in use})
    x.check("numbered", sorted(ids.values()) == [str(i) for i in range(len(use))])
    for k, col in zip(kinds, ("chord_id", "note_id", "measure_id")):
        want = {}
        for (c, n), v in use.items():
            if k in v:
                want[ids[c.split("/")[-1], n]] = v[k]
        rows = got[k] or []
        x.check("every row once", len(rows) == sum(len(v) for v in want.values()))
        for i, v in want.items():
            mine = [r for r in rows if r["file_id"] == i]
            x.check("in order", [r[col] for r in mine] == [str(j) for j in range(len(v))])
            x.check("as written", [{a: b for a, b in r.items() if a not in ("file_id", col) and (b or a in v[0])} for r in mine] == v)


def piece_files(x):
    """A corpus whose tables have all that pieces are made of."""
    c = Files(x)
    for r in c.notes:
        r["tpc"] = (7 * r["midi"]) % 12 - 3
        r["mc_onset"] = r["mn_onset"]
    for r in c.chords:
        r.update(root=0, chord_type="M", figbass=None, globalkey="C", localkey="I", localkey_is_minor=False, relativeroot=None, changes=None)
        r["globalkey_is_minor"] = False
    return c


@harness([U + "load_pieces"], **dict(CORPUS, samples=14))
def pieces_loaded(x):
    """The pieces asked for, in the order asked for, each from its own rows (or its own stored dictionary) and named
    after its file; asked for one of them, that one."""
    c = piece_files(x)
    rng = c.rng
    have = {r["file_id"] for r in c.chords}
    x.assume(have == set(c.files) and all(any(r["file_id"] == f for r in c.want_notes) for f in c.files))
    ids = rng.sample(c.files, rng.randrange(1, len(c.files) + 1)) if x.choice("ids given", [True, False]) else None
    one = rng.choice(ids or c.files) if x.choice("one of them", [True, False]) else None
    stored = x.choice("stored", [False, False, True])
    use = ids or c.files
    with scratch() as d:
        c.save(d)
        fs, ms, cs, ns = cr.load_clean_corpus_dfs(d)
        direct = {f: pm.get_score_piece_from_data_frames(ns.loc[f], cs.loc[f], ms.loc[f]) for f in c.files}
        kw = {}
        if x.choice("path of none", [True, False]):
            kw["piece_dicts_path"] = os.path.join(d, "none.pkl")
        if stored:
            path = os.path.join(d, "p.pkl")
            with open(path, "wb") as f:
                pickle.dump([direct[i].to_dict() for i in use], f)
            kw["piece_dicts_path"] = path
        if ids:
            kw["file_ids"] = list(ids)
        if one is not None:
            kw["specific_id"] = one
        got = x.returns("returns", x.call(du.load_pieces, input_path=d, **kw))
        bad = x.call(du.load_pieces, input_path=d, **{**kw, "specific_id": 99})
    want = [one] if one is not None else use
    x.check("as many as asked for", len(got) == len(want))
    for p, f in zip(got, want):
        q = direct[f]
        x.check("named after its file", p.name == f"{f}: {c.names[f][0]}/{c.names[f][1]}")
        x.check("its notes", list(p.get_inputs()) == list(q.get_inputs()))
        x.check("its chords", list(p.get_chords()) == list(q.get_chords()))
        x.check("its measures", p.measures_df.equals(q.measures_df))
    x.check("one that is not there", bad.raised(ValueError))


class Numbers(Seq):
    """A list of different file ids of any length."""

    def __init__(self, x, n, fn):
        super().__init__(n, fn)
        self.x, self.known = x, []

    def place(self, v):
        x = self.x
        for u, p in self.known:
            if u is v:
                return p
        there, k = x.fresh_bool("there"), x.fresh_int("place")
        x.assume(x.implies(there, x.and_(k >= 0, k < self.n, self.fn(k) == v)))
        self.known.append((v, (there, k)))
        return there, k

    def __contains__(self, v):
        return bool(self.place(v)[0])

    def index(self, v):
        there, k = self.place(v)
        if not there:
            raise ValueError("not in list")
        return k

    def vc_list(self):
        return self


class Rows:
    """A table of all files: the rows of one file by its id."""

    def __init__(self, name, ids=None):
        self.name, self.index = name, ids

    @property
    def loc(self):
        return self

    def __getitem__(self, i):
        return (self.name, i)


@harness([U + "load_pieces"], samples=6, max_seconds=20)
def any_pieces(x):
    """Any number of files and ids: exactly one piece per id asked for, in that order, each from the rows of its own id in every
    table or from the stored contents at its own place; one id asked for gives that one, and an id that is not there is refused."""
    if x.symbolic and x.mode_unroll is not None:
        raise Unsupported("no unrolled form")
    if not x.symbolic:
        return pieces_loaded(x)
    n, j = x.int("files", 1), x.int("tracked place")
    x.assume(x.and_(j >= 0, j < n))
    given, stored = x.choice("ids given", [True, False]), x.choice("stored", [None, "path", "missing"])
    labelled = x.choice("with chords", [True, False])
    ids = Numbers(x, n, lambda k: x.ufun("id", INT, k))
    other = Numbers(x, x.int("all files", 1), lambda k: x.ufun("file", INT, k))
    one = x.int("the one") if x.choice("one", [True, False]) else None
    files = Rows("files", ids if not given else other)
    tables = (files, Rows("measures"), Rows("chords") if labelled else None, Rows("notes"))
    x.replace(du, "load_clean_corpus_dfs", lambda path: tables if path == "somewhere" else x.check("the given place", False))
    x.replace(du, "tqdm", lambda it, **k: it)

    def made(kind):
        def f(*a, name=None, **k):
            if k:
                raise Unsupported("options of a piece")
            return O(kind=kind, of=a, name=name)

        return f

    def exists(path):
        return stored == "path"

    class Path_:
        def __init__(self, p):
            self.p = p

        def exists(self):
            return exists(self.p)

    @contextlib.contextmanager
    def opened(p, mode="r"):
        x.check("the stored pieces", isinstance(p, Path_) and p.p == "stored" and mode == "rb")
        yield "the file"

    class Pickle:
        @staticmethod
        def load(f):
            x.check("from the file", f == "the file")
            return Seq(n, lambda k: O(contents=k))

    x.replace(du, "get_score_piece_from_data_frames", made("tables"), "pieces from tables: contracts C15, C16")
    x.replace(du, "get_score_piece_from_dict", made("stored"))
    x.replace(du, "Path", Path_, "pathlib, open, pickle: the stored list is read from its file")
    x.replace(du, "open", opened)
    x.replace(du, "pickle", Pickle)
    kw = {}
    if given:
        kw["file_ids"] = ids
    if one is not None:
        kw["specific_id"] = one
    if stored:
        kw["piece_dicts_path"] = "stored"
    r = x.call(du.load_pieces, input_path="somewhere", **kw)
    if one is not None and not one in ids:  # noqa: E713
        x.check("an id that is not there is refused", r.raised(ValueError))
        return
    out = x.returns("returns", r)
    if one is not None:
        x.check("one piece", vlen(out) == 1)
        j = ids.index(one)
        p, i = at(out, 0), one
    else:
        x.check("one piece per id", vlen(out) == n)
        p, i = at(out, j), ids.fn(j)
    if stored == "path":
        m, d = p.of
        x.check("from the stored contents of its place", p.kind == "stored" and bool(d.contents == j))
        x.check("with its own measures", m[0] == "measures" and bool(m[1] == i))
        return
    x.check("from the tables", p.kind == "tables" and len(p.of) == 3)
    for part, name in zip(p.of, ("notes", "chords", "measures")):
        if name == "chords" and not labelled:
            x.check("no chords", part is None)
        else:
            x.check(f"its own {name}", part[0] == name and bool(part[1] == i))


def vlen(v):
    f = getattr(type(v), "vc_len", None)
    return f(v) if f else len(v)


def at(v, k):
    f = getattr(type(v), "vc_at", None)
    return f(v, k) if f else v[k]


# ---- pieces from scores -----------------------------------------------------------------------------------
@contextlib.contextmanager
def readers_of_scores(seen):
    """Stand-ins that record which score, labels, contents and name a piece is made from."""
    def from_xml(music_xml_path, label_csv_path, name=None):
        seen.append(("score", music_xml_path, label_csv_path, name))
        return len(seen) - 1

    def from_dict(measures_df, piece_dict, name=None):
        seen.append(("stored", measures_df, piece_dict, name))
        return len(seen) - 1

    stand_ins = {
        "get_score_piece_from_music_xml": from_xml, "get_score_piece_from_dict": from_dict,
        "get_measures_df_from_music21_score": lambda score: ("measures of", score), "parse": lambda path: str(path),
    }
    old = [(m, n, vars(m)[n]) for m in (du, pm) for n in stand_ins if n in vars(m)]
    for m, n, _ in old:
        setattr(m, n, stand_ins[n])
    try:
        yield
    finally:
        for m, n, v in old:
            setattr(m, n, v)


@harness([U + "load_pieces"], kind="bounded", symbolic=False, samples=150, max_seconds=20,
         bound="random directories of at most 6 scores")
def scores_loaded(x):
    """From a directory, every score in it, in the order of their paths, each with its own label file or with none if it has
    none, and named after it; from a single file, that score. Asked for some of them, or one, those. Prepared contents are used in place of the score where there are any."""
    rng = random.Random(x.int("seed", 0, 10 ** 6))
    single = x.choice("a single file", [True, False, False, False])
    with scratch() as d:
        found = {}
        for _ in range(rng.randrange(1, 7)):
            folder = rng.choice(["", "a", "b", "a/c"])
            stem = rng.choice(["one", "two", "op.3", "x y", "No1"])
            path = os.path.join(d, folder, "scores", stem + ".mxl")
            if path in found:
                continue
            os.makedirs(os.path.dirname(path), exist_ok=True)
            open(path, "w").close()
            found[path] = None
            if rng.random() < 0.6:
                found[path] = os.path.join(d, folder, "chords", stem + ".csv")
                os.makedirs(os.path.dirname(found[path]), exist_ok=True)
                open(found[path], "w").close()
        order = sorted(found)
        kw = {}
        given = d
        if single:
            given = rng.choice(order)
            order, base = [given], os.path.dirname(given)
            found[given] = None
        else:
            base = d
        all_ids = list(range(len(order)))
        ids = rng.sample(all_ids, rng.randrange(1, len(all_ids) + 1)) if x.choice("ids given", [True, False]) else None
        use = ids or all_ids
        one = rng.choice(use) if x.choice("one of them", [True, False]) else None
        stored = x.choice("stored", [False, False, True])
        if ids:
            kw["file_ids"] = list(ids)
        if one is not None:
            kw["specific_id"] = one
        if stored or x.choice("path of none", [True, False]):
            kw["piece_dicts_path"] = os.path.join(d, "p.pkl")
        if stored:
            with open(kw["piece_dicts_path"], "wb") as f:
                pickle.dump([f"contents {i}" for i in use], f)
        as_path = x.choice("as path", [True, False])
        seen = []
        x.note(scores=[(os.path.relpath(o, d), found[o] is not None) for o in order], single=single, ids=ids, one=one, stored=stored)
        with readers_of_scores(seen):
            got = x.returns("returns", x.call(du.load_pieces, xml=True, input_path=Path(given) if as_path else given, **kw))
        want = []
        for i in [one] if one is not None else use:
            name = f"{i}: {os.path.relpath(order[i], base)}"
            if stored:
                want.append(("stored", ("measures of", order[i]), f"contents {i}", name))
            else:
                want.append(("score", order[i], found[order[i]], name))
        text = lambda v: str(v) if isinstance(v, Path) else v  # noqa: E731
        x.check("as many as asked for", len(got) == len(want))
        x.check("each from its own score and labels", [tuple(map(text, seen[g])) for g in got] == want)


# ---- splits ---------------------------------------------------------------------------------------------
class Arr(Seq):
    """A numpy array of any length: taking elements by an array of positions, dividing."""

    def __getitem__(self, i):
        if isinstance(i, Seq):
            f = self.fn
            return Arr(i.n, lambda k: f(i.fn(k)))
        return super().__getitem__(i)

    def __truediv__(self, c):
        f, p = self.fn, self.prefix
        return Arr(self.n, lambda k: f(k) / c, lambda k: p(k) / c)


class SplitNp:
    def __init__(self, x):
        self.x, self.random = x, O(seed=lambda s: None, shuffle=self.shuffle)

    def __getattr__(self, n):
        raise Unsupported("numpy." + n + " on an array of any length")

    def array(self, v, dtype=None):
        if not isinstance(v, Seq):
            raise Unsupported("numpy.array")
        return Arr(v.n, v.fn, v.prefix)

    def arange(self, n):
        return Arr(n, lambda k: k)

    def shuffle(self, a):
        x, n, old = self.x, a.n, a.fn

        def at(k):
            p = x.ufun("shuffled", INT, k)
            x.assume(x.and_(p >= 0, p < n))
            return old(p)

        a.fn = at


class Read(LoopContract):
    needs = ("pieces", "indexes")

    def __init__(self, t):
        self.t = t

    def havoc(self, x, L):
        k = L["_k"]
        return {"pieces": Seq(k, lambda j: x.ufun("piece", INT, j)), "indexes": Seq(k, lambda j: x.ufun("index", INT, j))}

    def inv(self, x, L):
        out = []
        for n in self.needs:
            v = L[n]
            v = Seq(0, lambda j: j) if isinstance(v, list) and not v else v
            if not isinstance(v, Seq):
                raise Unsupported(n)
            out.append((f"as many {n}", v.n == L["_k"]))
            out.append((f"{n} in order", x.implies(x.and_(self.t >= 0, self.t < v.n), v.fn(self.t) == self.t)))
        return out


def _size(v):
    return len(v) if isinstance(v, list) else v.n


def _elem(x, v, j):
    if isinstance(v, list):
        if len(v) > 1:
            raise Unsupported("list of several")
        return v[0] if v else -1
    return v.fn(j)


class Cut(LoopContract):
    needs = ("prop", "split_pieces", "split_indexes")

    def __init__(self, w):
        self.w = w

    def havoc(self, x, L):
        k, w = L["_k"], self.w
        w.bound(k), w.bound(k + 1)

        def some(name):
            return Seq(k, lambda s: Seq(x.ufun(name + " size", INT, s), lambda j: x.ufun(name + " element", INT, s, j)))

        return {"prop": x.fresh_real("prop"), "split_pieces": some("pieces"), "split_indexes": some("ids")}

    def inv(self, x, L):
        w, k = self.w, L["_k"]
        out = [("share so far", L["prop"] == w.share(k))]
        for n in self.needs[1:]:
            v = L[n]
            v = Seq(0, lambda j: []) if isinstance(v, list) and not v else v
            if not isinstance(v, Seq):
                raise Unsupported(n)
            out.append((f"as many {n}", v.n == k))
            if w.t < v.n:
                e = v.fn(w.t)
                out.append((f"{n}: size", _size(e) == w.bound(w.t + 1) - w.bound(w.t)))
                if w.j < _size(e):
                    out.append((f"{n}: element", _elem(x, e, w.j) == w.at(w.bound(w.t) + w.j)))
        return out


class Splitting:
    def __init__(self, x):
        self.x = x
        self.n, self.m = x.int("pieces", 0), x.int("splits", 1)
        self.t, self.j = x.int("any split", 0), x.int("any position", 0)
        x.assume(self.t < self.m)
        self.total = self.S(self.m)
        x.assume(x.and_(self.total > 0, self.S(0) == 0))

    def S(self, k):
        return self.x.ufun("sum of shares", REAL, k)

    def given(self, k):
        v = self.x.ufun("given share", REAL, k)
        self.x.assume(self.x.and_(v >= 0, self.S(k + 1) == self.S(k) + v))
        return v

    def share(self, k):
        return self.S(k) / self.total

    def rounded(self, v):
        x = self.x
        r = x.ufun("rounded", INT, v)
        x.assume(x.and_(2 * r - 2 * v <= 1, 2 * v - 2 * r <= 1))
        return r

    def bound(self, k):
        # sums of the first shares, none of which is negative, lie between nothing and all (induction over k)
        x = self.x
        x.assume(x.implies(x.and_(k >= 0, k <= self.m), x.and_(self.S(k) >= 0, self.S(k) <= self.total)))
        return self.rounded(self.share(k) * self.n)

    def at(self, k):
        p = self.x.ufun("shuffled", INT, k)
        self.x.assume(self.x.and_(p >= 0, p < self.n))
        return p


@harness([D + "get_split_file_ids_and_pieces"], samples=120)
def splits(x):
    """Every readable piece is in exactly one split, together with its own number; each split has its share of them,
    rounded along the way. Any number of pieces and splits, whatever the shares."""
    if not abstract(x):
        return splits_concrete(x)
    w = Splitting(x)
    # the piece at the tracked position of the tracked split, which is any piece
    p = w.at(w.bound(w.t) + w.j) if w.n > 0 else 0
    x.stub(ds, "get_score_piece_from_music_xml", lambda a, b, **k: x.check("its own labels", a[1] == b[1]) or a[1])
    x.replace(ds, "np", SplitNp(x), "numpy array/arange/shuffle (shuffling permutes)")
    x.replace(ds, "tqdm", lambda it, **k: it, "tqdm passes its items through")
    x.replace(ds, "round", w.rounded, "round: a nearest whole number, the same for the same value")
    K_ = "data.datasets.get_split_file_ids_and_pieces#"
    x.loop(K_ + "2", Read(p))
    x.loop(K_ + "3", Cut(w))
    paths = {"xmls": Seq(w.n, lambda k: ("xml", k)), "csvs": Seq(w.n, lambda k: ("csv", k))}
    shares = Seq(w.m, w.given, w.S)
    ids, pieces = x.returns("returns", x.call(ds.get_split_file_ids_and_pieces, xml_and_csv_paths=paths, splits=shares, seed=3))
    w.given(w.t)
    for name, got in (("pieces", pieces), ("numbers", ids)):
        x.check(f"one list of {name} per split", got.vc_len() == w.m)
        e = got.fn(w.t)
        x.check(f"{name}: as many as its share", _size(e) == w.bound(w.t + 1) - w.bound(w.t))
        if w.j < _size(e):
            x.check(f"{name}: those of its part of the shuffled list", _elem(x, e, w.j) == w.at(w.bound(w.t) + w.j))
    x.check("parts follow each other", w.bound(w.t) <= w.bound(w.t + 1))
    x.check("from the first", w.bound(0) == 0)
    x.check("to the last", w.bound(w.m) == w.n)


def split_input(x):
    rng = random.Random(x.int("seed", 0, 10 ** 6))
    n = x.choice("pieces", [0, 1, 2, 3, 7, 12])
    shares = x.choice("shares", [None, (0.8, 0.1, 0.1), (1.0,), (0.5, 0.0, 0.5), (3, 1), (1, 1, 1, 1)])
    source = x.choice("source", ["xml", "tables"])
    made = {}
    if source == "xml":
        good = list(range(n))
        kw = dict(xml_and_csv_paths={"xmls": [("xml", i) for i in good], "csvs": [("csv", i) for i in good]})
    else:
        every = sorted(rng.sample(range(40), n))
        files = pd.DataFrame({"corpus_name": ["c"] * n, "file_name": ["f"] * n}, index=pd.Index(every, dtype="int64", name="file_id"))
        lack = {i: rng.choice([None] * 6 + ["notes", "chords", "measures", "broken"]) for i in every}

        def table(name):
            rows = [(i, j) for i in every for j in range(2) if lack[i] != name] + [(99, 0)]
            idx = pd.MultiIndex.from_tuples(rows, names=["file_id", "row"])
            return pd.DataFrame({"of": [name] * len(rows), "piece": [i for i, _ in rows], "broken": [lack.get(i) == "broken" for i, _ in rows]}, index=idx)

        kw = dict(data_dfs={"files": files, **{k: table(k) for k in ("notes", "chords", "measures")}})
        good = [i for i in every if lack[i] is None]
    if shares is not None:
        kw["splits"] = shares
    kw["seed"] = x.choice("random seed", [0, 5])
    return good, shares or (0.8, 0.1, 0.1), kw


@contextlib.contextmanager
def readers():
    """Stand-ins for reading a piece: the piece is known by its number."""
    old = ds.get_score_piece_from_music_xml, ds.get_score_piece_from_data_frames

    def from_xml(a, b, **k):
        assert a[0] == "xml" and b == ("csv", a[1])
        return O(number=a[1])

    def from_tables(n, c, m, *a, **k):
        for df, of in ((n, "notes"), (c, "chords"), (m, "measures")):
            assert set(df["of"]) == {of} and len(set(df["piece"])) == 1
        if n["broken"].any():
            raise KeyError("cannot be read")
        assert len({int(df["piece"].iloc[0]) for df in (n, c, m)}) == 1
        return O(number=int(n["piece"].iloc[0]))

    ds.get_score_piece_from_music_xml, ds.get_score_piece_from_data_frames = from_xml, from_tables
    logging.disable(logging.CRITICAL)
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            yield
    finally:
        logging.disable(logging.NOTSET)
        ds.get_score_piece_from_music_xml, ds.get_score_piece_from_data_frames = old


def cuts(n, shares):
    total, done, out = sum(shares), 0, []
    for s in shares:
        a = round(done * n)
        done += s / total
        out.append(round(done * n) - a)
    return out


def splits_concrete(x):
    good, shares, kw = split_input(x)
    with readers():
        ids, pieces = x.returns("returns", x.call(ds.get_split_file_ids_and_pieces, **kw))
        again = ds.get_split_file_ids_and_pieces(**kw)[0]
    x.check("one list per split", len(ids) == len(pieces) == len(shares))
    x.check("each piece with its number", [[int(i) for i in s] for s in ids] == [[p.number for p in s] for s in pieces])
    x.check("every readable piece exactly once", sorted(int(i) for s in ids for i in s) == good)
    x.check("as many as the shares say", [len(s) for s in ids] == cuts(len(good), shares))
    x.check("the same again", [[int(i) for i in s] for s in again] == [[int(i) for i in s] for s in ids])


@harness([D + "get_dataset_splits"], kind="bounded", symbolic=False, bound="at most 12 pieces", samples=120, max_seconds=20)
def split_sets(x):
    """For each kind of data set and each split, the data set of exactly the split's pieces; none where it has none."""
    good, shares, kw = split_input(x)

    class A:
        def __init__(self, pieces, *a, **k):
            self.pieces = [p.number for p in pieces]

    class B(A):
        pass

    kinds = x.choice("kinds", [[A], [A, B], [B, A, B]])
    with readers():
        sets, ids, pieces = x.returns("returns", x.call(ds.get_dataset_splits, kinds, **kw))
        plain = ds.get_split_file_ids_and_pieces(**kw)[0]
    numbers = [[p.number for p in s] for s in pieces]
    x.check("each piece with its number", numbers == [[int(i) for i in s] for s in ids])
    x.check("every readable piece exactly once", sorted(i for s in numbers for i in s) == good)
    x.check("as many as the shares say", [len(s) for s in numbers] == cuts(len(good), shares))
    for kind, row in zip(kinds, sets):
        for s, one in zip(numbers, row):
            x.check("the split's data set", one is None if not s else type(one) is kind and one.pieces == s)
    x.check("the split of this seed", [[int(i) for i in s] for s in ids] == [[int(i) for i in s] for s in plain])
    x.check("one row per kind", len(sets) == len(kinds) and all(len(r) == len(shares) for r in sets))
