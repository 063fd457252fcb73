"""C06: local keys and applied chords: a chain of numerals is read innermost (last) first."""
from common import *
from pyvc.instrument import LoopContract
from pyvc.sym import Rope, Unsupported
from harmonic_inference.data.key import Key
import harmonic_inference.data.key as key_mod

KEY = "harmonic_inference.data.key:"
LOOP = "utils.harmonic_utils.decode_relative_keys#0"


class Tok:
    """Arbitrary text: may be passed on, not looked into."""

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported("looking into a chain of numerals")

    def vc_isnull(self):
        return False


class Chain(Tok):
    """A '/'-separated chain of numerals of arbitrary length."""

    def __init__(self, x, seq):
        self.x, self.seq = x, seq

    def split(self, sep=None):
        if sep != "/":
            raise Unsupported("split")
        return self.seq


class Seq:
    def __init__(self, x, n):
        self.x, self.n = x, n
        self.last = None

    def vc_len(self):
        return self.n

    def vc_at(self, k):
        # one arbitrary numeral: any accidentals in front of any of the 14 numerals
        x = self.x
        if self.last is None:
            num = x.choice("part", NUMERALS)
            sharp = x.choice("part sign", [True, False])
            c = x.fresh_int("count")
            x.assume(c >= 0)
            self.last = (k, num, c if sharp else -c, Rope([("r", "#" if sharp else "b", c), ("s", num)]))
        if self.last[0] is not k and not (self.last[0] == k):
            raise Unsupported("more than one element of the chain at once")
        return self.last[3]

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported("list method on an abstract chain")


def step(tonic, mode, num, acc, pt):
    """One applied key, from the current key: (new tonic without range check, new mode)."""
    return (
        tonic + SCALE[mode][pt][DEGREES[num]] + ACC[pt] * acc,
        KeyMode.MINOR if num.islower() else KeyMode.MAJOR,
    )


class Fold(LoopContract):
    """After k numerals (from the right) the running key is the k-th key of the chain."""

    needs = ("tonic", "mode")

    def __init__(self, x, pt, seq, t0, m0):
        self.x, self.pt, self.seq, self.t0, self.m0 = x, pt, seq, t0, m0
        self.mid = None

    def havoc(self, x, L):
        # the k-th key of the chain: any pitch in range, either mode (the starting key when k = 0)
        t = x.fresh_int("tonic")
        x.assume(x.and_(t >= 0, t < NPITCH[self.pt]))
        m = x.choice("mode so far", MODES)
        x.assume(x.implies(L["_k"] == 0, x.and_(t == self.t0, m == self.m0)))
        self.mid = (L["_k"], t, m)
        return {"tonic": t, "mode": m}

    def inv(self, x, L):
        k, t, m = L["_k"], L["tonic"], L["mode"]
        if self.mid is None:
            return [("starts from the given key", x.and_(t == self.t0, m == self.m0))]
        k0, t0, m0 = self.mid
        if t is t0 and m is m0:  # assumption at the cut point: see havoc
            return [("in range", x.and_(t >= 0, t < NPITCH[self.pt]))]
        _, num, acc, _ = self.seq.last
        want_t, want_m = step(t0, m0, num, acc, self.pt)
        return [
            ("in range", x.and_(t >= 0, t < NPITCH[self.pt])),
            (
                "tonic moves by the numeral's interval in the current key",
                (t == want_t) if self.pt == TPC else ((t - want_t) % 12 == 0),
            ),
            ("mode follows the numeral's case", m == want_m),
            ("one step", k == k0 + 1),
        ]


@harness([HU + "decode_relative_keys", HU + "get_interval_from_numeral"])
def chain_contract(x):
    """For chains of any length: fold from the last numeral to the first; ValueError exactly when a TPC
    tonic on the way leaves the range."""
    interval_contract(x)
    transpose_pitch_contract(x)
    pt = x.choice("pitch_type", PITCH_TYPES)
    t0 = x.int("tonic", 0, NPITCH[pt])
    m0 = x.choice("mode", MODES)
    if x.symbolic and x.mode_unroll is None:
        n = x.fresh_int("n")
        x.assume(n >= 1)
        seq = Seq(x, n)
        fold = Fold(x, pt, seq, t0, m0)
        x.loop(LOOP, fold)
        r = x.call(hu.decode_relative_keys, Chain(x, seq), t0, m0, pt)
        if fold.mid is None:
            raise Unsupported("the chain was not read by the loop under contract")
        k, t, m = fold.mid
        if r.ok:
            x.check("all numerals read", k == n)
            x.check("result is the last key of the chain", x.and_(r.value[0] == t, r.value[1] == m))
        else:
            x.check("refusal is a ValueError", r.raised(ValueError), repr(r))
            want_t, _ = step(t, m, seq.last[1], seq.last[2], pt)
            x.check("refused only when a tonic leaves the range", x.or_(want_t < 0, want_t >= 35))
            x.check("MIDI never refused", pt == TPC)
        return
    # ordinary (or bounded symbolic) chains
    n = x.choice("length", [1, 2] if x.symbolic else [1, 1, 2, 2, 3, 4, 6])
    parts, text = [], None
    for i in range(n):
        num = x.choice(f"numeral {i}", NUMERALS)
        sharp = x.choice(f"sign {i}", [True, False])
        c = x.int(f"count {i}", 0) if x.symbolic else x.choice(f"count {i}", [0, 0, 0, 1, 1, 2, 5])
        parts.append((num, c if sharp else -c))
        p = x.repeat("#" if sharp else "b", c) + num
        text = p if text is None else text + "/" + p
    r = x.call(hu.decode_relative_keys, text, t0, m0, pt)
    t, m, out = t0, m0, False
    for num, acc in reversed(parts):
        t, m = step(t, m, num, acc, pt)
        if pt == TPC:
            out = x.or_(out, t < 0, t >= 35)
    x.note(text=text)
    if r.ok:
        x.check("accepted only when every tonic is in range", x.not_(out))
        x.check("tonic", (r.value[0] == t) if pt == TPC else (r.value[0] - t) % 12 == 0)
        if pt == MIDI:
            x.check("MIDI tonic in range", x.and_(r.value[0] >= 0, r.value[0] < 12))
        x.check("mode", r.value[1] == m)
    else:
        x.check("refusal is a ValueError", r.raised(ValueError), repr(r))
        x.check("refused only when a tonic leaves the range", out)


def fold_text(text, t, m, pt):
    for p in reversed(text.split("/")):
        adj, num = acc_spec(p, True)
        t, m = step(t, m, num, adj, pt)
        if pt == MIDI:
            t %= 12
        elif not 0 <= t < 35:
            return None
    return t, m


def pick_chain(x, tag):
    n = x.choice(f"{tag} length", [1, 1, 2, 3])
    out = []
    for i in range(n):
        out.append(
            x.choice(f"{tag} acc {i}", ["", "", "", "b", "#", "bb"]) + x.choice(f"{tag} num {i}", NUMERALS)
        )
    return "/".join(out)


@harness([KEY + "Key.from_series"])
def key_of_a_row(x):
    """A label row's key: global key as spelled, local key relative to it, applied key relative to the
    local one (or equal to it when there is none); None when some tonic leaves the range."""
    pt = x.choice("pitch_type", PITCH_TYPES)
    letter = x.choice("letter", LETTERS)
    sharp = x.choice("sign", [True, False])
    c = x.int("count", 0) if x.symbolic else x.choice("count ", [0, 0, 0, 1, 2, 3])
    acc = c if sharp else -c
    name = letter + x.repeat("#" if sharp else "b", c)
    gminor = x.choice("global minor", [True, False])
    gm = KeyMode.MINOR if gminor else KeyMode.MAJOR
    applied = x.choice("applied", ["chain", "None", "nan"])
    g = LETTER[pt][letter.upper()] + ACC[pt] * acc
    if pt == MIDI:
        g = g % 12
    row = {"globalkey": name, "globalkey_is_minor": gminor, "localkey_is_minor": not gminor}
    if x.symbolic and x.mode_unroll is None:
        accidental_contract(x)
        local, rel = Tok(), Tok()
        lt, rt = x.int("local tonic", 0, NPITCH[pt]), x.int("applied tonic", 0, NPITCH[pt])
        lm, rm = x.choice("local mode", MODES), x.choice("applied mode", MODES)
        lok, rok = x.choice("local ok", [True, False]), x.choice("applied ok", [True, False])
        calls = []

        def stub(relative_string, tonic, mode, pitch_type):
            calls.append(relative_string)
            if relative_string is local:
                x.check("local key read in the global key", x.and_(tonic == g, mode == gm, pitch_type == pt))
                if not lok:
                    raise ValueError("contract")
                return lt, lm
            x.check("applied key read in the local key", x.and_(tonic == lt, mode == lm, pitch_type == pt))
            if not rok:
                raise ValueError("contract")
            return rt, rm

        stub_everywhere(x, "decode_relative_keys", stub)
        bad = x.not_(lok) if applied != "chain" else x.not_(x.and_(lok, rok))
    else:
        local, rel = pick_chain(x, "local"), pick_chain(x, "applied")
        if x.symbolic and not (g >= 0 and g < NPITCH[pt]):
            return
        gc = g
        a = fold_text(local, gc, gm, pt) if (x.symbolic or 0 <= gc < NPITCH[pt]) else None
        b = fold_text(rel, a[0], a[1], pt) if a is not None and applied == "chain" else None
        bad = a is None or (applied == "chain" and b is None)
        if a is not None:
            lt, lm = a
        if b is not None:
            rt, rm = b
    row["localkey"] = local
    row["relativeroot"] = {"chain": rel, "None": None, "nan": float("nan")}[applied]
    x.note(row=row)
    r = x.returns("never raises", x.call(Key.from_series, row, pt))
    gok = x.and_(g >= 0, g < NPITCH[pt])
    if r is None:
        x.check("no key only when a tonic leaves the range", x.or_(x.not_(gok), bad))
        return
    x.check("a key only when every tonic is in range", x.and_(gok, x.not_(bad)))
    x.check("global key", x.and_(r.global_tonic == g, r.global_mode == gm))
    x.check("local key", x.and_(r.local_tonic == lt, r.local_mode == lm))
    if applied == "chain":
        x.check("applied key", x.and_(r.relative_tonic == rt, r.relative_mode == rm))
    else:
        x.check("no applied key: the local key", x.and_(r.relative_tonic == lt, r.relative_mode == lm))
    x.check("pitch type", r.tonic_type == pt)


DEG = ["1", "2", "3", "4", "5", "6", "7"]


@harness(
    [KEY + "Key.from_labels_csv_row"],
    kind="bounded",
    bound="at most two accidentals on the key name and on each degree",
    budget=150,
)
def csv_key(x):
    """CSV labels: 'key' is the local key (case = mode, -/+ accidentals); an applied degree moves the tonic by
    that degree of the local key, where in minor an unaltered 7 means the raised seventh and a sharp on 6
    is redundant."""
    pt = x.choice("pitch_type", PITCH_TYPES)
    letter = x.choice("letter", LETTERS)
    ka = x.choice("key accidentals", ["", "-", "+", "--", "++"])
    applied = x.choice("applied", [True, False])
    with_global = x.choice("global given", [True, False])
    ra = x.choice("root accidentals", ["", "-", "+", "--", "++"])
    rd = x.choice("root degree", DEG)
    degree = "5" + ("/" + ra + rd if applied else "")
    gk = Key(1, 2, 3, MODES[0], MODES[1], MODES[1], pt) if with_global else None
    row = {"key": letter + ka, "degree": degree}
    x.note(row=row)
    out = x.call(Key.from_labels_csv_row, row, pt, global_key=gk)
    lt = LETTER[pt][letter.upper()] + ACC[pt] * (ka.count("+") - ka.count("-"))
    lm = KeyMode.MAJOR if letter.isupper() else KeyMode.MINOR
    if pt == MIDI:
        lt %= 12
    rt = lt
    if applied:
        adj = ra.count("+") - ra.count("-")
        if lm == KeyMode.MINOR and rd == "7":
            adj += 1
        if lm == KeyMode.MINOR and rd == "6" and adj > 0:
            adj -= 1
        rt = lt + SCALE[lm][pt][int(rd) - 1] + ACC[pt] * adj
        if pt == MIDI:
            rt %= 12
    inside = 0 <= lt < NPITCH[pt] and 0 <= rt < NPITCH[pt]
    if not out.ok:
        x.check("refusal is a ValueError", out.raised(ValueError), repr(out))
        x.check("plain keys in range are never refused", applied or not inside)
        return
    k = out.value
    x.check("accepted only in range", inside)
    x.check("local key", k.local_tonic == lt and k.local_mode == lm)
    x.check("applied tonic", k.relative_tonic == rt)
    x.check("unapplied: applied key is the local key", applied or k.relative_mode == lm)
    if applied and ra == "" and rd != "7":
        minor = rd in ("2", "3", "6") if lm == KeyMode.MAJOR else rd in ("1", "2", "4", "5")
        x.check("applied to a degree of the scale: the mode of its chord", k.relative_mode == (KeyMode.MINOR if minor else KeyMode.MAJOR))
    x.check("tonic type", k.tonic_type == pt)
    if with_global:
        x.check("global key is the given one's", k.global_tonic == 3 and k.global_mode == MODES[1])
    else:
        x.check("global key defaults to the local key", k.global_tonic == lt and k.global_mode == lm)
