"""C20: the written output: every label where it begins, right or wrong as it is; alterations of chords as pitches."""
from common import *
from fractions import Fraction
import random
import numpy as np
import harmonic_inference.utils.eval_utils as eu
import harmonic_inference.utils.harmonic_utils as hu
from c19 import O, abstract, names, random_piece
import tables
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.key import Key

E = "harmonic_inference.utils.eval_utils:"
H = "harmonic_inference.utils.harmonic_utils:"
LETTERS = "FCGDAEB"
SCALE = {KeyMode.MAJOR: (0, 2, 4, -1, 1, 3, 5), KeyMode.MINOR: (0, 2, -3, -1, 1, -4, -2)}
TABLE = dict(kind="bounded", symbolic=False, bound="random pieces of at most 9 inputs", samples=200, max_seconds=40)


def with_notes(w, rng):
    """Inputs with their positions: those that do not last are where the next one is."""
    place, at = [], Fraction(0)
    for d in w.durations:
        place.append(at)
        at += d
    notes = [O(onset=(int(p), p - int(p)), mc_onset=p / 2 + 1) for p in place]
    w.piece.get_inputs = lambda: notes
    w.notes = notes
    return w


def lasting(w):
    return [i for i in range(w.n) if w.durations[i]]


def row(w, i, label, **k):
    n = w.notes[i]
    return {"label": label, "mc": n.onset[0], "mc_onset": n.mc_onset, "mn_onset": n.onset[1], **k}


def estimated(w, i, pt, kt):
    r, ty, inv, tonic, mode = w.labels[i]
    return (
        names("chord", pt)[hu.get_chord_one_hot_index(ty, r, pt, inversion=inv)],
        names("key", kt)[hu.get_key_one_hot_index(mode, tonic, kt)],
    )


def true(w, i, pt, kt):
    c, k = w.chord(i).to_pitch_type(pt), w.key(i).to_pitch_type(kt)
    return (
        names("chord", pt)[hu.get_chord_one_hot_index(c.chord_type, c.root, pt, inversion=c.inversion)],
        names("key", kt)[hu.get_key_one_hot_index(k.relative_mode, k.relative_tonic, kt)],
    )


@harness([E + "get_annotation_df"], samples=200, max_seconds=40)
def annotation_table(x):
    """A row with the key's name where a key begins, a row with the chord's name where a chord begins (key first), at the
    position of its first input that lasts; nothing else. Any number of inputs, chords and keys."""
    if abstract(x):
        w = tables.Any(x)
        w.names()
        f = tables.KEY + "get_annotation_df#"
        for i, what in enumerate(("chord", "key")):
            x.loop(f + str(i), tables.Written(f"estimated_{what}_labels", w.seg["estimated", what], w.label("estimated", what), w.t))

        def want(had, k):
            return [(w.changed("estimated", what, had, k), dict(w.where(), label=w.text("estimated", what))) for what in ("key", "chord")]

        x.loop(f + "2", tables.RowByRow(
            w, "labels_list", {"prev_est_key_string": ("estimated", "key"), "prev_est_chord_string": ("estimated", "chord")}, want))
        tables.rows_returned(x, x.returns("returns", x.call(eu.get_annotation_df, w.state(), w.piece(), w.pt, w.kt)))
        return
    if x.symbolic:
        x.assume(False)
    pt, kt = x.choice("roots", PITCH_TYPES), x.choice("tonics", PITCH_TYPES)
    w = with_notes(random_piece(x, pt, kt), None)
    df = x.returns("returns", x.call(eu.get_annotation_df, w.state, w.piece, pt, kt))
    want, pc, pk = [], None, None
    for i in lasting(w):
        c, k = estimated(w, i, pt, kt)
        want += [row(w, i, k)] * (k != pk) + [row(w, i, c)] * (c != pc)
        pc, pk = c, k
    x.check("the rows", df.to_dict("records") == want)


@harness([E + "get_label_df", E + "get_chord_distance", E + "get_key_distance"], samples=200, max_seconds=40)
def label_table(x):
    """Where the estimated or the true label changes: the estimated label if it begins there ("--" if it goes on), green
    when right, yellow when only inversion, type detail or mode is wrong, red otherwise. Any number of inputs, chords, keys."""
    if abstract(x):
        w = tables.Any(x)
        w.names()
        wrong = w.distances()
        f = tables.KEY + "get_label_df#"
        for i, (who, what) in enumerate((a, b) for b in ("chord", "key") for a in ("true", "estimated")):
            name = ("gt" if who == "true" else who) + f"_{what}_labels"
            x.loop(f + str(i), tables.Written(name, w.seg[who, what], w.label(who, what), w.t))

        def label(what, had, k):
            begins = w.changed("estimated", what, had, k)

            def right(got):
                if isinstance(got, tables.Text):
                    return x.and_(begins, tables.same_text(got, w.text("estimated", what)))
                return x.and_(x.not_(begins), got == "--") if isinstance(got, str) else False

            return right

        def color(what):
            full, part = wrong(what, True), wrong(what, False)

            def right(got):
                want = {"green": x.not_(full), "yellow": x.and_(full, x.not_(part)), "red": x.and_(full, part)}
                return want.get(got, False)

            return right

        def want(had, k):
            return [
                (
                    x.or_(w.changed("estimated", what, had, k), w.changed("true", what, had, k)),
                    dict(w.where(), label=label(what, had, k), color_name=color(what)),
                )
                for what in ("key", "chord")
            ]

        prev = {f"prev_{a}_{b}_string": (c, b) for b in ("chord", "key") for a, c in (("gt", "true"), ("est", "estimated"))}
        x.loop(f + "4", tables.RowByRow(w, "labels_list", prev, want))
        tables.rows_returned(x, x.returns("returns", x.call(eu.get_label_df, w.state(), w.piece(), w.pt, w.kt)))
        return
    if x.symbolic:
        x.assume(False)
    pt, kt = x.choice("roots", PITCH_TYPES), x.choice("tonics", PITCH_TYPES)
    w = with_notes(random_piece(x, pt, kt), None)
    df = x.returns("returns", x.call(eu.get_label_df, w.state, w.piece, pt, kt))
    want, prev = [], (None, None, None, None)
    for i in lasting(w):
        c, k = estimated(w, i, pt, kt)
        tc, tk = true(w, i, pt, kt)
        chord, key = w.chord(i).to_pitch_type(pt), w.key(i).to_pitch_type(kt)
        r, ty, inv, tonic, mode = w.labels[i]
        if (k, tk) != (prev[1], prev[3]):
            color = "red" if key.relative_tonic != tonic else "green" if key.relative_mode == mode else "yellow"
            want.append(row(w, i, k if k != prev[1] else "--", color_name=color))
        if (c, tc) != (prev[0], prev[2]):
            if (chord.root, chord.chord_type, chord.inversion) == (r, ty, inv):
                color = "green"
            else:
                color = "yellow" if chord.root == r and TRIAD_REDUCTION[chord.chord_type] == TRIAD_REDUCTION[ty] else "red"
            want.append(row(w, i, c if c != prev[0] else "--", color_name=color))
        prev = (c, k, tc, tk)
    x.check("the rows", df.to_dict("records") == want)


# ---- alterations ------------------------------------------------------------------------------------
def letter(p):
    """Pitches by fifths, F..B repeat every seven."""
    return LETTERS[(p - FIRST_F) % 7]


FIRST_F = hu.get_pitch_from_string("F", TPC)


def alterations(x, most=4, tag=""):
    rng = random.Random(x.int("seed" + tag, 0, 10 ** 6))
    items = []
    for _ in range(rng.choice(range(most + 1))):
        prefix = rng.choice(["", "", "+", "v", "^"])
        acc = rng.choice(["", "", "b", "#", "bb", "##"])
        number = rng.choice([2, 4, 6]) if prefix in ("v", "^") else rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13])
        items.append((prefix, acc, number))
    return rng, items


@harness([H + "split_changes_into_list"], kind="bounded", symbolic=False, samples=500, max_seconds=15,
         bound="at most 6 alterations, at most two accidentals each")
def split(x):
    """The alterations of a chord one by one, in order."""
    _, items = alterations(x, 6)
    texts = [p + a + str(n) for p, a, n in items]
    r = x.returns("returns", x.call(hu.split_changes_into_list, "".join(texts)))
    x.check("one by one", r == texts)


def altered(root, ty, items, tonic, mode):
    """(replaced pitch or None, new pitch, upper octave) per alteration; None when one replaces a pitch the chord lacks."""
    scale = [tonic + v for v in SCALE[mode]]
    degree = [letter(p) for p in scale].index(letter(root))
    order = "CDEFGAB" * 2
    start = order.index(letter(root))
    tones = [p for p in range(NPITCH[TPC]) if hu.get_vector_from_chord_type(ty, TPC, root)[p] == 1]
    tones.sort(key=lambda p: order[start: start + 7].index(letter(p)))
    out = []
    for prefix, acc, n in items:
        new = scale[(degree + n - 1) % 7] + 7 * (acc.count("#") - acc.count("b"))
        place = None
        if prefix == "^" or (prefix == "" and n in (2, 4, 6) and acc.startswith("#")):
            place = n // 2
            if prefix == "" and n == 6 and acc == "#" and len(tones) == 3:
                place = None
        elif prefix == "v" or (prefix == "" and n in (2, 4, 6)):
            place = n // 2 - 1
        if place is not None and place >= len(tones):
            return None
        out.append((None if place is None else tones[place], new, n >= 8))
    return out


def a_chord(rng):
    ty = rng.choice(TYPES)
    return ty, rng.randrange(12, 21), rng.randrange(12, 21), rng.choice(list(KeyMode))


@harness([H + "get_added_and_removed_pitches", H + "split_changes_into_list"], kind="bounded", symbolic=False, samples=1500,
         max_seconds=30, bound="at most 4 alterations, central keys")
def added_and_removed(x):
    """Each alteration, in order: the pitch on that degree above the root in the key's scale with its accidentals ("+" from the
    octave on); replacing the chord tone below (2, 4, 6), above (with "^" or a sharp; #6 of a triad is added), or none."""
    rng, items = alterations(x)
    ty, root, tonic, mode = a_chord(rng)
    want = altered(root, ty, items, tonic, mode)
    if want is None:
        x.assume(False)
    text = "".join(p + a + str(n) for p, a, n in items)
    x.note(changes=text, chord=(root, ty.name), key=(tonic, mode.name))
    r = x.returns("returns", x.call(hu.get_added_and_removed_pitches, root, ty, text, tonic, mode))
    pairs = list(r.items()) if isinstance(r, dict) else list(r)
    x.check("the pitches", [tuple(p) for p in pairs] == [
        ("" if old is None else str(old), "+" * up + str(new)) for old, new, up in want])


@harness([E + "get_labels_df"], **TABLE)
def truth_table(x):
    """One row per lasting input: the true chord (root, type, inversion, alterations) and key in both pitch formats, with C
    where asked for, the input's duration and position."""
    w = with_notes(random_piece(x, TPC, TPC), None)
    rng = random.Random(x.int("alteration seed", 0, 10 ** 6))
    known = {}
    for i, c in enumerate(w.piece.get_chords()):
        _, items = alterations(x, tag=f" of chord {i}")
        want = altered(c.root, c.chord_type, items, c.key_tonic, c.key_mode)
        if rng.random() < 0.5 or want is None or any(not 3 <= new <= 32 for _, new, _ in want):
            items, want = [], []
        c.suspension = "".join(p + a + str(n) for p, a, n in items) or None
        known[id(c)] = want
    tpc_c = x.choice("C", [None, 0, 7, 15])
    kw = {} if tpc_c is None else {"tpc_c": tpc_c}
    c0 = hu.get_pitch_from_string("C", TPC)
    shift = 0 if tpc_c is None else tpc_c - c0
    df = x.returns("returns", x.call(eu.get_labels_df, w.piece, **kw))
    midi = lambda p: (p - c0) * 7 % 12  # noqa: E731
    rows = []
    for i in lasting(w):
        c, k = w.chord(i), w.key(i)
        text = lambda f: ";".join(  # noqa: E731
            ("" if old is None else str(f(old))) + ":" + "+" * up + str(f(new)) for old, new, up in known[id(c)])
        rows.append({
            "chord_root_tpc": c.root + shift, "chord_root_midi": midi(c.root), "chord_type": c.chord_type,
            "chord_inversion": c.inversion, "chord_suspension_tpc": text(lambda p: p + shift), "chord_suspension_midi": text(midi),
            "key_tonic_tpc": k.relative_tonic + shift, "key_tonic_midi": midi(k.relative_tonic), "key_mode": k.relative_mode,
            "duration": w.durations[i], "mc": w.notes[i].onset[0], "mn_onset": w.notes[i].onset[1],
        })
    x.check("the rows", df.to_dict("records") == rows)


@harness(["annotate:annotate"], kind="bounded", symbolic=False, samples=25, max_seconds=30,
         bound="at most 3 random pieces of at most 9 inputs")
def written_out(x):
    """Annotating pieces writes, for each piece that has a name and an analysis, exactly its own table to a file of its name;
    nothing for the others."""
    import csv
    import logging
    import os
    import shutil
    import tempfile
    import annotate

    pt, kt = x.choice("roots", PITCH_TYPES), x.choice("tonics", PITCH_TYPES)
    rng = random.Random(x.int("which", 0, 10 ** 6))
    ws = []
    for i in range(rng.choice([0, 1, 2, 3])):
        w = with_notes(random_piece(x, pt, kt, tag=f" {i}"), None)
        w.piece.name = rng.choice([None, f"{i}: piece_{i}.mxl", f"{i}: some/where/piece.{i}.tsv"])
        w.none = rng.random() < 0.25
        ws.append(w)
    asked = []

    def get_harmony(piece):
        asked.append(piece)
        w = [w for w in ws if w.piece is piece][0]
        return None if w.none else w.state

    model = O(get_harmony=get_harmony, CHORD_OUTPUT_TYPE=pt, KEY_OUTPUT_TYPE=kt)
    where = rng.choice(["there", "new/there", None])
    d = tempfile.mkdtemp()
    logging.disable(logging.CRITICAL)
    try:
        x.returns("returns", x.call(annotate.annotate, model, [w.piece for w in ws], None if where is None else os.path.join(d, where)))
        x.check("each piece is analysed", [id(p) for p in asked] == [id(w.piece) for w in ws])
        files = {f: os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs}
        want = {}
        for w in ws:
            if w.piece.name is not None and not w.none and where is not None:
                want[os.path.splitext(w.piece.name.split("/")[-1].split(" ")[-1])[0] + ".tsv"] = w
        x.check("one file per piece", set(files) == set(want), str(sorted(files)))
        for f, w in want.items():
            with open(files[f], newline="") as g:
                rows = list(csv.DictReader(g, delimiter="\t"))
            expect = eu.get_annotation_df(w.state, w.piece, pt, kt).to_dict("records")
            x.check("its table", [{k: str(v) for k, v in r.items()} for r in expect] == [{k: r[k] for k in e} for r, e in zip(rows, expect)]
                    and len(rows) == len(expect))
    finally:
        logging.disable(logging.NOTSET)
        shutil.rmtree(d)
