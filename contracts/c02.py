"""C02: the chord vocabulary: index <-> (root, type, inversion) <-> label, for every configuration."""
from common import *
from c03 import relative_contract
from harmonic_inference.data.chord import Chord, get_chord_vector_length
import harmonic_inference.data.chord as chord_mod

CH = "harmonic_inference.data.chord:"
INV = {t: (3 if i < 4 else 4) for i, t in enumerate(TYPES)}
TYPE_NAME = dict(
    zip(TYPES, ["M", "m", "o", "+", "MM7", "Mm7", "mM7", "mm7", "o7", "%7", "+7", "+M7"])
)


def red(r):
    return NO_REDUCTION if r is None else r


def types_of(r):
    return sorted(set(red(r).values()), key=TYPES.index)


def config(x):
    pt = x.choice("pitch_type", PITCH_TYPES)
    use_inv = x.choice("use_inversions", [True, False])
    kind = x.choice("kind", ["absolute", "relative", "padded"])
    r = x.choice("reduction", REDUCTIONS)
    return pt, use_inv, kind != "absolute", kind == "padded", r


def roots(pt, rel, pad):
    if pt == MIDI:
        return list(range(12))
    if not rel:
        return list(range(35))
    p = REL_PAD if pad else 0
    return list(range(REL_MIN - p, REL_MAX + p))


def vocabulary(pt, use_inv, rel, pad, r):
    return [
        (root, t, i)
        for t in types_of(r)
        for root in roots(pt, rel, pad)
        for i in (range(INV[t]) if use_inv else [0])
    ]


def index_spec(pt, use_inv, rel, pad, r, t, root, inv):
    """Index of a chord; root counted from 0 (the lowest root of the configuration)."""
    n = len(roots(pt, rel, pad))
    t = red(r)[t]
    off = sum((INV[u] if use_inv else 1) * n for u in types_of(r) if TYPES.index(u) < TYPES.index(t))
    return off + ((INV[t] * root + inv) if use_inv else root)


@harness([HU + "get_chord_one_hot_index", HU + "get_chord_inversion_count"])
def encode_contract(x):
    """Index of any chord under any configuration; ValueError exactly for roots or inversions outside."""
    pt, use_inv, rel, pad, r = config(x)
    t = x.choice("type", TYPES)
    root, inv = x.int("root"), x.int("inversion")
    out = x.call(
        hu.get_chord_one_hot_index,
        t,
        root,
        pt,
        inversion=inv,
        use_inversion=use_inv,
        relative=rel,
        pad=pad,
        reduction=r,
    )
    n = len(roots(pt, rel, pad))
    inside = x.and_(root >= 0, root < n)
    if use_inv:
        inside = x.and_(inside, inv >= 0, inv < INV[red(r)[t]])
    if out.ok:
        x.check("accepted only inside the vocabulary", inside)
        x.check("index", out.value == index_spec(pt, use_inv, rel, pad, r, t, root, inv))
    else:
        x.check("refusal is a ValueError", out.raised(ValueError), repr(out))
        x.check("refused only outside the vocabulary", x.not_(inside))


@harness([HU + "get_chord_one_hot_index"])
def encode_defaults(x):
    """Omitted options mean: root position, inversions counted, absolute, unpadded, unreduced."""
    pt, t = x.choice("pitch_type", PITCH_TYPES), x.choice("type", TYPES)
    root = x.int("root", 0, NPITCH[pt])
    v = x.returns("returns", x.call(hu.get_chord_one_hot_index, t, root, pt))
    x.check("index", v == index_spec(pt, True, False, False, None, t, root, 0))


@harness([HU + "get_chord_from_one_hot_index"], samples=30, budget=200)
def decode_contract(x):
    """Decoding any index of any configuration gives exactly the vocabulary entry; finite domain, complete."""
    pt, use_inv, rel, pad, r = config(x)
    want = vocabulary(pt, use_inv, rel, pad, r)
    kw = dict(use_inversions=use_inv, relative=rel, pad=pad, reduction=r)
    got = x.returns("slice returns", x.call(hu.get_chord_from_one_hot_index, slice(None), pt, **kw))
    x.check("vocabulary size", len(got) == len(want))
    x.check("whole vocabulary", list(got) == want)
    step = 1 if x.symbolic else 7
    for i in range(0, len(want), step):
        v = hu.get_chord_from_one_hot_index(i, pt, **kw)
        if tuple(v) != want[i]:
            x.check(f"entry {i}", False, repr((v, want[i])))
    x.check("every single index decodes to its entry", True)
    out = x.call(hu.get_chord_from_one_hot_index, len(want), pt, **kw)
    x.check("index past the end is refused", out.raised(IndexError))


@harness([HU + "get_chord_one_hot_index", HU + "get_chord_from_one_hot_index"], samples=30, budget=200)
def bijection(x):
    """decode(encode(chord)) is the (reduced) chord, for every chord of every configuration."""
    pt, use_inv, rel, pad, r = config(x)
    lo = roots(pt, rel, pad)[0]
    n = len(roots(pt, rel, pad))
    kw = dict(relative=rel, pad=pad, reduction=r)
    allv = hu.get_chord_from_one_hot_index(slice(None), pt, use_inversions=use_inv, **kw)
    seen = set()
    for t in TYPES:
        for root in range(n):
            for inv in range(INV[red(r)[t]] if use_inv else 1):
                i = hu.get_chord_one_hot_index(t, root, pt, inversion=inv, use_inversion=use_inv, **kw)
                if not (0 <= i < len(allv) and tuple(allv[i]) == (root + lo, red(r)[t], inv)):
                    x.check(f"round trip of {t.name} {root} {inv}", False)
                seen.add(int(i))
    x.check("round trip", True)
    x.check("every index is some chord's", len(seen) == len(allv))


@harness([HU + "get_chord_label_list", HU + "get_chord_string"], budget=200)
def labels(x):
    """One distinct label per index: root name, type symbol and inversion of that vocabulary entry."""
    pt, use_inv, rel, pad, r = config(x)
    to = x.choice("relative_to", [None] + list(range(NPITCH[pt]))) if rel else None
    got = x.returns(
        "returns",
        x.call(
            hu.get_chord_label_list,
            pt,
            use_inversions=use_inv,
            relative=rel,
            relative_to=to,
            pad=pad,
            reduction=r,
        ),
    )
    names = {}
    for root in roots(pt, rel, pad):
        if rel and to is None:
            names[root] = str(root)
        elif not rel:
            names[root] = hu.get_pitch_string(root, pt)
        else:
            p = root + to
            if pt == MIDI:
                names[root] = hu.get_pitch_string(p % 12, pt)
            else:
                names[root] = hu.get_pitch_string(p, pt) if 0 <= p < 35 else str(root)
    want = [
        f"{names[root]}:{TYPE_NAME[t]}" + (f", inv:{i}" if use_inv else "")
        for root, t, i in vocabulary(pt, use_inv, rel, pad, r)
    ]
    x.check("one label per index", len(got) == len(want))
    x.check("labels are distinct", len(set(got)) == len(got))
    x.check("labels name the chords", list(got) == want)


@harness([CH + "get_chord_vector_length", CH + "Chord.get_chord_vector_length"])
def lengths(x):
    """One-hot vector length is the size of the vocabulary of the same configuration."""
    pt, use_inv, rel, pad, r = config(x)
    kw = dict(one_hot=True, relative=rel, use_inversions=use_inv, pad=pad, reduction=r)
    n = x.returns("returns", x.call(get_chord_vector_length, pt, **kw))
    x.check("length", n == len(vocabulary(pt, use_inv, rel, pad, r)))
    c = Chord(0, 0, 0, MODES[0], TYPES[0], 0, (0, 0), 0, (0, 0), 0, 0, pt)
    m = x.returns("method returns", x.call(c.get_chord_vector_length, **kw))
    x.check("method agrees", m == n)
    # omitted options mean: one-hot, relative, inversions counted, unpadded, unreduced (as in the method)
    left = x.choice("omitted", ["one_hot", "relative", "use_inversions", "pad", "reduction"])
    default = dict(one_hot=True, relative=True, use_inversions=True, pad=False, reduction=None)
    short = {k: v for k, v in kw.items() if k != left}
    full = dict(kw, **{left: default[left]})
    want = len(vocabulary(pt, full["use_inversions"], full["relative"], full["pad"], full["reduction"]))
    x.check("omitted option", x.returns("short returns", x.call(get_chord_vector_length, pt, **short)) == want)
    x.check("omitted in the method", x.returns("short method returns", x.call(c.get_chord_vector_length, **short)) == want)


@harness([CH + "Chord.get_one_hot_index"])
def chord_object_index(x):
    """A chord object's absolute or key-relative index is that of its reduced type, (relative) root, inversion."""
    relative_contract(x)
    pt, use_inv, rel, pad, r = config(x)
    t = x.choice("type", TYPES)
    root, inv, tonic = x.int("root"), x.int("inversion"), x.int("tonic")
    bass = x.int("bass")
    c = Chord(root, bass, tonic, MODES[1], t, inv, (0, 0), 0, (1, 0), 1, 2, pt)

    def stub(chord_type, root_pitch, pitch_type, inversion=0, use_inversion=True, relative=False, pad=False,
             reduction=None):
        n = len(roots(pitch_type, relative, pad))
        if root_pitch < 0 or root_pitch >= n:
            raise ValueError("contract")
        if use_inversion and (inversion < 0 or inversion >= INV[red(reduction)[chord_type]]):
            raise ValueError("contract")
        return index_spec(pitch_type, use_inversion, relative, pad, reduction, chord_type, root_pitch, inversion)

    stub_everywhere(x, "get_chord_one_hot_index", stub)
    out = x.call(c.get_one_hot_index, relative=rel, use_inversion=use_inv, pad=pad, reduction=r)
    lo = roots(pt, rel, pad)[0]
    hi = roots(pt, rel, pad)[-1]
    if not rel:
        eff = root
        inside = x.and_(root >= lo, root <= hi)
    elif pt == MIDI:
        eff = (root - tonic) % 12
        inside = True
    else:
        eff = root - tonic - lo
        inside = x.and_(root - tonic >= lo, root - tonic <= hi)
    if use_inv:
        inside = x.and_(inside, inv >= 0, inv < INV[red(r)[t]])
    if out.ok:
        x.check("accepted only inside the vocabulary", inside)
        x.check("index", out.value == index_spec(pt, use_inv, rel, pad, r, t, eff, inv))
    else:
        x.check("refusal is a ValueError", out.raised(ValueError), repr(out))
        x.check("refused only outside the vocabulary", x.not_(inside))


@harness([HU + "get_chord_from_one_hot_index", HU + "get_chord_label_list", CH + "Chord.get_one_hot_index"])
def omitted_options(x):
    """An option left out means: inversions counted, absolute, no padding (a chord's own index: padded), unreduced."""
    pt, use_inv, rel, pad, r = config(x)
    left = x.choice("omitted", ["use_inversions", "relative", "pad", "reduction"])
    default = dict(use_inversions=True, relative=False, pad=False, reduction=None)
    kw = dict(use_inversions=use_inv, relative=rel, pad=pad, reduction=r)
    short = {k: v for k, v in kw.items() if k != left}
    full = dict(kw, **{left: default[left]})
    n = len(vocabulary(pt, full["use_inversions"], full["relative"], full["pad"], full["reduction"]))
    i = x.choice("index", [0, 1, n // 3, n - 1])
    for name, f in (("chord", lambda **k: hu.get_chord_from_one_hot_index(i, pt, **k)),
                    ("labels", lambda **k: hu.get_chord_label_list(pt, **k))):
        a = x.returns(name + " returns", x.call(f, **short))
        b = x.returns(name + " with the option", x.call(f, **full))
        x.check(name + ": the option's default", a == b)
    c = Chord(17, 17, 15, MODES[0], TYPES[5], 1, (0, 0), 0, (0, 0), 0, 0, pt) if pt == TPC else Chord(
        2, 2, 5, MODES[0], TYPES[5], 1, (0, 0), 0, (0, 0), 0, 0, pt)
    k = dict(use_inversion=use_inv, relative=rel, pad=pad, reduction=r)
    own = "use_inversion" if left == "use_inversions" else left
    a = x.returns("own index", x.call(c.get_one_hot_index, **{o: v for o, v in k.items() if o != own}))
    d = dict(use_inversion=True, relative=False, pad=True, reduction=None)
    b = x.returns("own index with the option", x.call(c.get_one_hot_index, **dict(k, **{own: d[own]})))
    x.check("own index: the option's default", a == b)
