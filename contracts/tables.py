"""Row-by-row tables over a piece of any length: what is written for any one input, given the labels of the last
lasting input before it (C19 results_table, C20 annotation_table and label_table)."""
import itertools

from common import *
from pyvc.instrument import LoopContract
from pyvc.seq import Seq
from pyvc.smt import BOOL, INT, REAL
from pyvc.sym import Unsupported
import harmonic_inference.utils.eval_utils as eu
import c19

O, KEY = c19.O, c19.KEY


class Text:
    """The name of a label. Two names of a kind are the same exactly when the labels are (C02, C03)."""

    __hash__ = None

    def __init__(self, x, what, pt, label):
        self.x, self.what, self.pt, self.label = x, what, pt, label

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        if not isinstance(o, Text) or (o.what, o.pt) != (self.what, self.pt):
            raise Unsupported("another name")
        return self.label == o.label

    def __ne__(self, o):
        return self.x.not_(self.__eq__(o))


def same_text(a, b):
    return isinstance(a, Text) and (a.what, a.pt) == (b.what, b.pt) and a.label == b.label


class Rows:
    """The rows so far: any, plus those appended in this step."""

    def __init__(self, k):
        self.k, self.rows = k, []

    def append(self, r):
        self.rows.append(r)

    def extend(self, rs):
        if not isinstance(rs, (list, tuple)):
            raise Unsupported("rows")
        self.rows.extend(rs)

    def __iadd__(self, rs):
        self.extend(rs)
        return self

    def __getattr__(self, n):
        raise Unsupported("rows." + n)


class Table:
    def __init__(self, rows):
        self.rows = rows


class Pd:
    def __getattr__(self, n):
        raise Unsupported("pandas." + n)

    def DataFrame(self, rows, **k):
        if k:
            raise Unsupported("options of a table")
        return Table(rows)


class Written(c19.Written):
    """A place of its own for each label array (they share nothing)."""

    def havoc(self, x, L):
        n = self.needs[0]
        v = x.fresh_int("version")
        if not isinstance(L[n], Seq):
            raise Unsupported("labels")
        return {n: Seq(L[n].n, lambda k: x.ufun("written " + n, INT, v, k))}


class RowByRow(LoopContract):
    """The rows of this step are those of the tracked input (any input); `prev`: the names carried along."""

    def __init__(self, w, rows, prev, want):
        self.needs, self.w, self.rows, self.prev, self.want = (rows, *prev), w, rows, prev, want

    def havoc(self, x, L):
        w, k = self.w, L["_k"]
        x.assume(x.implies(k < w.n, k == w.t))
        x.assume(x.iff(w.had(k + 1), x.or_(w.had(k), w.lasts(k))))
        for v in self.prev.values():
            x.assume(w.last(v, k + 1) == x.ite(w.lasts(k), w.at_t(*v), w.last(v, k)))
        out = {self.rows: Rows(k)}
        had = bool(w.had(k)) if self.prev else False
        for n, v in self.prev.items():
            out[n] = Text(x, v[1], w.types[v[1]], w.last(v, k)) if had else None
        return out

    def inv(self, x, L):
        w, k, rows = self.w, L["_k"], L[self.rows]
        res = []
        if k is 0:  # noqa: F632 -- entry
            x.assume(x.not_(w.had(0)))
            res.append(("no rows yet", isinstance(rows, list) and not rows))
            res += [(f"no {n} yet", L[n] is None) for n in self.prev]
            return res
        if not isinstance(rows, Rows):
            raise Unsupported("rows")
        for n, v in self.prev.items():
            p = L[n]
            if p is None:
                res.append((f"{n}: none so far", x.not_(w.had(k))))
            elif isinstance(p, Text) and p.what == v[1]:
                res.append((f"{n}: that of the last lasting input", x.and_(w.had(k), p.label == w.last(v, k))))
            else:
                raise Unsupported("names")
        if k is rows.k:  # the arbitrary step begins: nothing to show yet
            return res
        return res + [("the rows of this input: " + a, c) for a, c in self.step(x, rows)]

    def step(self, x, rows):
        w = self.w
        if rows.k is None:
            raise Unsupported("rows")
        had = w.had(rows.k)
        want = [(x.and_(w.lasts(w.t), c), r) for c, r in self.want(had, rows.k)]
        # The rows must be, in order, exactly the wanted ones.
        ways = []
        for which in itertools.combinations(range(len(want)), len(rows.rows)):
            way = [cond if i in which else x.not_(cond) for i, (cond, _) in enumerate(want)]
            for i, got in zip(which, rows.rows):
                r = want[i][1]
                if not isinstance(got, dict) or set(got) != set(r):
                    break
                way += [self.same(x, got[f], r[f]) for f in r]
            else:
                ways.append(x.and_(*way))
        return [("exactly the wanted ones, in order", x.or_(*ways) if ways else False)]

    def same(self, x, a, b):
        if callable(b):
            return b(a)
        if isinstance(b, Text):
            return same_text(a, b)
        return a == b


class Any(c19.Any):
    """A piece of any length whose inputs have places."""

    def __init__(self, x):
        super().__init__(x, 1, 1)
        self.types = {"chord": self.pt, "key": self.kt}

    def had(self, k):
        return self.x.ufun("some lasting input before", BOOL, k)

    def lasts(self, k):
        return self.dur(k) != 0

    def last(self, v, k):
        return self.x.ufun("last %s %s before" % v, INT, k)

    def place(self, k):
        x = self.x
        return O(onset=(x.ufun("measure", INT, k), x.ufun("beat", REAL, k)), mc_onset=x.ufun("beat in its measure", REAL, k))

    def piece(self):
        p = super().piece()
        p.get_inputs = lambda: Seq(self.n, self.place)
        return p

    def names(self):
        """hu's label lists by their contracts; numpy, pandas."""
        x = self.x

        class Names:
            def __init__(self, what, pt):
                self.what, self.pt = what, pt

            def __getitem__(self, i):
                return Text(x, self.what, self.pt, i)

        def chords(pt, use_inversions=True):
            if not use_inversions:
                raise Unsupported("other names")
            return Names("chord", pt)

        x.replace(eu.hu, "get_chord_label_list", chords, "names of chords, one per label (C02)")
        x.replace(eu.hu, "get_key_label_list", lambda pt: Names("key", pt), "names of keys, one per label (C03)")
        x.replace(eu, "np", c19.Np(x), "numpy zeros, full, slice assignment (documented meaning)")
        x.replace(eu, "pd", Pd(), "pandas DataFrame: a table of the given rows")
        x.replace(eu, "int", lambda v: v, "int of an integer")

    def distances(self):
        """The distances of this input's labels, with everything counting and with less; hu's readings by their contracts."""
        x = self.x
        Tag = c19.Tag

        def chord_of(i, pt, use_inversions=True, relative=False, pad=False, reduction=None):
            if not use_inversions or relative or pad or reduction is not None:
                raise Unsupported("another label list")
            x.check("chords read in their type", pt == self.pt)
            return tuple(Tag(n, i) for n in ("root", "type", "inversion"))

        def key_of(i, pt):
            x.check("keys read in their type", pt == self.kt)
            return tuple(Tag(n, i) for n in ("tonic", "mode"))

        def wrong(what, full):
            return x.ufun(f"wrong {what}{'' if full else ' in part'}", BOOL, self.at_t("true", what), self.at_t("estimated", what))

        def apart(what, a, b, full):
            names = ("root", "type", "inversion") if what == "chord" else ("tonic", "mode")
            for v in (a, b):
                if [getattr(e, "what", None) for e in v] != list(names) or any(e.label is not v[0].label for e in v):
                    x.check("compared part by part", False)
            g, e = self.at_t("true", what), self.at_t("estimated", what)
            x.check("the labels of this input are compared", x.or_(
                x.and_(a[0].label == g, b[0].label == e), x.and_(a[0].label == e, b[0].label == g)))
            return 1.0 if wrong(what, full) else 0.0

        def chord_distance(r1, t1, i1, r2, t2, i2, use_inversion=True, reduction=NO_REDUCTION):
            full = use_inversion is True and reduction is NO_REDUCTION
            if not full and not (use_inversion is False and reduction is TRIAD_REDUCTION):
                x.check("compared fully, or without inversions and by triad", False)
            return apart("chord", (r1, t1, i1), (r2, t2, i2), full)

        x.stub(eu, "get_chord_distance", chord_distance)
        x.stub(eu, "get_key_distance", lambda a, m1, b, m2, tonic_only=False: apart("key", (a, m1), (b, m2), not tonic_only))
        x.replace(eu.hu, "get_chord_from_one_hot_index", chord_of, "chord of an index (C02)")
        x.replace(eu.hu, "get_key_from_one_hot_index", key_of, "key of an index (C03)")
        return wrong

    def text(self, who, what):
        return Text(self.x, what, self.types[what], self.at_t(who, what))

    def changed(self, who, what, had, k):
        x = self.x
        return x.or_(x.not_(had), self.last((who, what), k) != self.at_t(who, what))

    def where(self):
        p = self.place(self.t)
        return {"mc": p.onset[0], "mc_onset": p.mc_onset, "mn_onset": p.onset[1]}


class Converted(Any):
    """As Any, but the estimates are in types of their own; the table is in the types of the true labels."""

    def __init__(self, x):
        super().__init__(x)
        self.read = {"chord": x.choice("estimated roots", PITCH_TYPES), "key": x.choice("estimated tonics", PITCH_TYPES)}

    def converted(self, what, label):
        if self.read[what] == self.types[what]:
            return label
        return self.x.ufun(f"{what} as in the table", INT, label)

    def conversions(self):
        x = self.x
        Tag = c19.Tag
        at = {"root": "chord", "tonic": "key"}

        def chord_of(i, pt, use_inversions=True, relative=False, pad=False, reduction=None):
            if not use_inversions or relative or pad or reduction is not None:
                raise Unsupported("another label list")
            x.check("chords read in their type", pt == self.read["chord"])
            return Tag("root", i), Tag("type", i), Tag("inversion", i)

        def key_of(i, pt):
            x.check("keys read in their type", pt == self.read["key"])
            return Tag("tonic", i), Tag("mode", i)

        def name(tag, pt):
            x.check("named in the type of the estimates", tag.what in at and pt == self.read[at[tag.what]])
            return Tag("name of " + tag.what, tag.label)

        def number(tag, pt):
            what = tag.what[8:]
            x.check("numbered in the type of the table", tag.what.startswith("name of ") and pt == self.types[at[what]])
            return Tag("table " + what, tag.label)

        def index(what, parts, pt):
            tags = [parts[n] for n in parts]
            if not all(isinstance(v, Tag) for v in tags):
                raise Unsupported("another label")
            first = list(parts)[0]
            ok = parts[first].what == "table " + first or (parts[first].what == first and self.read[what] == self.types[what])
            x.check("put together from its parts", ok and all(parts[n].what == n for n in parts if n != first))
            x.check("the parts of one label", x.and_(*[v.label == tags[0].label for v in tags]))
            x.check("in the type of the table", pt == self.types[what])
            return self.converted(what, tags[0].label)

        def chord_index(ty, root, pt, inversion=None, **k):
            if k or inversion is None:
                raise Unsupported("another index")
            return index("chord", {"root": root, "type": ty, "inversion": inversion}, pt)

        x.replace(eu.hu, "get_chord_from_one_hot_index", chord_of, "chord of an index (C02)")
        x.replace(eu.hu, "get_key_from_one_hot_index", key_of, "key of an index (C03)")
        x.replace(eu.hu, "get_pitch_string", name, "name of a pitch (C01)")
        x.replace(eu.hu, "get_pitch_from_string", number, "pitch of a name (C01)")
        x.replace(eu.hu, "get_chord_one_hot_index", chord_index, "index of a chord (C02)")
        x.replace(eu.hu, "get_key_one_hot_index", lambda m, t, pt: index("key", {"tonic": t, "mode": m}, pt), "index of a key (C03)")


def results_table(x):
    w = Converted(x)
    w.names()
    w.conversions()
    f = KEY + "get_results_df#"
    for i, (who, what) in enumerate((a, b) for b in ("chord", "key") for a in ("true", "estimated")):
        name = ("gt" if who == "true" else who) + f"_{what}_labels"
        label = w.label(who, what)
        if who == "estimated":
            label = lambda k, f=label, what=what: w.converted(what, f(k))  # noqa: E731
        x.loop(f + str(i), Written(name, w.seg[who, what], label, w.t))

    def want(had, k):
        row = {"duration": w.dur(w.t)}
        for what in ("chord", "key"):
            row["gt_" + what] = w.text("true", what)
            row["est_" + what] = Text(x, what, w.types[what], w.converted(what, w.at_t("estimated", what)))
        return [(True, row)]

    x.loop(f + "4", RowByRow(w, "labels_list", {}, want))
    call = x.call(eu.get_results_df, w.piece(), w.state(), w.read["chord"], w.read["key"], w.pt, w.kt)
    rows_returned(x, x.returns("returns", call))


def rows_returned(x, table):
    x.check("a table of the rows", isinstance(table, Table) and isinstance(table.rows, Rows))
    x.check("no further row", not table.rows.rows)
