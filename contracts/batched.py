"""Ghost state for the proofs of get_key_change_probs, get_key_change_states and run_csm_batched (C17): any number of states,
any batches.  One state (t) is arbitrary but fixed.

Assumed: the data loader yields the items of the data set in order, in consecutive batches (no shuffling); an item is a state's
input and memory (C14); a model answers each item of a batch in its place."""
from common import *
import numpy as np
from pyvc.instrument import LoopContract
from pyvc.seq import Seq
from pyvc.smt import BOOL, INT, REAL
from pyvc.sym import Unsupported
from search import Distinct, Labels, Matrix, No, Row, Vec
import harmonic_inference.models.joint_model as jm

LOOP = "models.joint_model.HarmonicInferenceModel."


class Token(No):
    """Something that belongs to state k."""

    def __init__(self, w, what, k):
        self.w, self.what, self.k = w, what, k

    def vc_len(self):
        if self.what != "input":
            raise Unsupported("length of " + self.what)
        return self.w.x.ufun("input length", INT, self.k)

    def numpy(self):
        return Token(self.w, self.what, self.k)

    def __getitem__(self, i):
        if self.what != "prior" or i != 0:
            raise Unsupported("part of " + self.what)
        return Token(self.w, "prior row", self.k)


class St(No):
    """State k of the list: memory before, input, and what is written to it."""

    def __init__(self, w, k):
        self.__dict__.update(w=w, k=k)

    def __getattr__(self, n):
        w, k = self.w, self.k
        if n == w.kind + "_hidden_state":
            if not w.has(k):
                return None
            return (Token(w, "memory h", k), Token(w, "memory c", k))
        if n == "change_index":
            return w.end(k)
        if n == "prev_state":
            return St2(w.begin(k))
        if n == "key":
            return w.key(k)
        return No.__getattr__(self, n)

    def __setattr__(self, n, v):
        w, x = self.w, self.w.x
        t = w.t
        me = self.k == t
        if n == w.kind + "_hidden_state":
            if not isinstance(v, tuple) or len(v) != 2:
                raise Unsupported("memory")
            good = x.and_(v[0].k == t, v[1].k == t, v[0].what == "new h", v[1].what == "new c")
            w.got_memory = x.ite(me, good, w.got_memory)
        elif n == "csm_log_prior" and w.kind == "csm":
            good = x.and_(v.k == t, v.what == "prior row")
            w.got_prior = x.ite(me, good, w.got_prior)
        else:
            x.check("nothing else of a state is written: " + n, False)

    def _input(self, kind, a, extra):
        w, x = self.w, self.w.x
        if kind != w.kind or extra:
            raise Unsupported("input of another model")
        x.check("asked with the pitch type, tables and labels of the model",
                len(a) == 5 and a[0] == w.pt and all(p is q for p, q in zip(a[1:4], w.caches)) and a[4] is w.LABELS)
        return Token(w, "input", self.k)

    def get_ktm_input(self, *a, **k):
        return self._input("ktm", a, k)

    def get_ksm_input(self, *a, **k):
        return self._input("ksm", a, k)

    def get_csm_input(self, *a, **k):
        return self._input("csm", a, k)

    def can_key_transition(self):
        return self.w.begin(self.k) > 0

    def get_key(self, pitch_type, labels):
        self.w.x.check("key with the pitch type and labels of the model", pitch_type == self.w.pt and labels is self.w.LABELS)
        return type("K", (), {"relative_tonic": self.w.tonic(self.k)})()

    def key_transition(self, key, log_prob, pitch_type, labels):
        w, x = self.w, self.w.x
        x.check("transition with the pitch type and labels of the model", pitch_type == w.pt and labels is w.LABELS)
        r = w.at_rel
        x.check("a key change to the key at hand", key == w.key_id(self.k, r))
        x.check(
            "probability of the new key: its prior, to the exponent, on every input",
            log_prob == w.PR(self.k, r) * w.exponent * (w.end(self.k) - w.begin(self.k)),
        )
        if w.refused(self.k, key):
            return None
        return New(self.k, key, w.at_pos)


class St2(No):
    def __init__(self, i):
        self.change_index = i


class New(No):
    """The state in a new key."""

    def __init__(self, k, key, pos):
        self.k, self.key, self.pos = k, key, pos


class Memory(No):
    """Initial memory of the model (one part): zero for everybody."""

    def __init__(self, w, part):
        self.w, self.part = w, part

    def __setitem__(self, i, v):
        if not isinstance(i, tuple) or len(i) != 2 or i[0] != slice(None):
            raise Unsupported("writing into the memory")
        w, x = self.w, self.w.x
        good = x.and_(v.k == w.t, v.what == "memory " + self.part)
        w.mem[self.part] = x.ite(i[1] == w.t, x.ite(good, 1, 2), w.mem[self.part])


class Inputs(No):
    """The list of inputs."""

    vc_lazy = True
    origin = None

    def __init__(self, w):
        self.w = w
        self.code = w.x.fresh_int("input of the tracked state")

    def vc_len(self):
        return self.w.n

    def vc_at(self, k):
        # only read when complete
        self.w.x.check("inputs are complete when read", self.code == 1)
        return Token(self.w, "input", k)

    def __setitem__(self, i, v):
        w, x = self.w, self.w.x
        self.code = x.ite(i == w.t, x.ite(x.and_(v.k == w.t, v.what == "input"), 1, 2), self.code)


class Answers(No):
    """The answers to items a..b of a batch."""

    def __init__(self, w, what, a, b, turned=True):
        self.w, self.what, self.a, self.b, self.turned = w, what, a, b, turned

    def numpy(self):
        return Answers(self.w, self.what, self.a, self.b, self.turned)

    def squeeze(self, axis=None):
        if axis != 1:
            raise Unsupported("squeeze")
        return self.numpy()


class Collected(No):
    """The answers so far, in order."""

    vc_lazy = True
    origin = None

    def __init__(self, w, what, n):
        self.w, self.what, self.n = w, what, n

    def extend(self, a):
        x = self.w.x
        if not isinstance(a, Answers) or not a.turned:
            raise Unsupported("collecting something else")
        if self.what is None:
            self.what = a.what
        x.check("answers of one kind", self.what == a.what)
        x.check("answers in the order of the states", self.n == a.a)
        self.n = a.b

    def vc_len(self):
        return self.n

    def vc_at(self, k):
        return Token(self.w, self.what, k)


class Batches(No):
    def __init__(self, w):
        self.w = w

    def vc_len(self):
        return self.w.batches

    def vc_at(self, k):
        return Batch(self.w, k)


class Batch(No):
    def __init__(self, w, k):
        x = w.x
        self.w, self.a, self.b = w, w.cut(k), w.cut(k + 1)
        x.assume(x.and_(self.a >= 0, self.a <= self.b, self.b <= w.n))


class Model(No):
    def __init__(self, w):
        self.w = w

    def init_hidden(self, n):
        self.w.x.check("memory for every state", n == self.w.n)
        self.w.mem = {"h": 0, "c": 0}
        self.w.memory = (Memory(self.w, "h"), Memory(self.w, "c"))
        return self.w.memory

    def get_dataset_kwargs(self):
        return {"settings": self.w.settings}

    def run(self, batch, first):
        if not isinstance(batch, Batch):
            raise Unsupported("batch")
        w = self.w
        return Answers(w, first, batch.a, batch.b), tuple(Answers(w, p, batch.a, batch.b, False) for p in ("new h", "new c"))

    def run_one_step(self, batch):
        if self.w.kind == "ksm":
            raise Unsupported("one step of the key sequence model")
        return self.run(batch, "prior" if self.w.kind == "csm" else "output")

    def get_output(self, batch):
        if self.w.kind != "ksm":
            raise Unsupported("output of the whole sequence")
        return self.run(batch, "key prior")


class Torch:
    @staticmethod
    def transpose(a, i, j):
        if {i, j} != {0, 1}:
            raise Unsupported("transpose")
        return Answers(a.w, a.what, a.a, a.b, not a.turned)


class Table(No):
    """An array with one number per state."""

    def __init__(self, w, fn):
        self.w, self.fn = w, fn

    def vc_len(self):
        return self.w.n

    def vc_at(self, k):
        return self.fn(k)

    def __getitem__(self, i):
        if isinstance(i, (Seq, Table)):
            return Masked(self, i)
        raise Unsupported("part of an array")

    def __setitem__(self, i, v):
        if not isinstance(i, (Seq, Table)) or not isinstance(v, Masked) or v.mask is not i:
            raise Unsupported("writing into an array")
        x, old = self.w.x, self.fn
        self.fn = lambda k: x.ite(i.vc_at(k), v.table.fn(k), old(k))


class Masked(No):
    def __init__(self, table, mask):
        self.table, self.mask = table, mask


class KeyOrder(Row):
    vc_lazy = True
    origin = None

    def vc_len(self):
        return self.w.V

    def vc_at(self, k):
        w, x = self.w, self.w.x
        r = w.AS(self.j, k)
        x.assume(x.and_(r >= 0, r < w.V))  # argsort: a permutation
        w.at_pos, w.at_rel = k, r
        w.facts(self.j, k)
        return r


class Rows(Matrix):
    def vc_at(self, k):
        if self.role == "order":
            r = KeyOrder(self.w, k, self.fn, "keys")
            return r
        return Row(self.w, k, self.fn, self.role)


class Numpy:
    def __init__(self, w):
        self.w = w
        self.errstate = np.errstate

    def __getattr__(self, n):
        raise Unsupported("numpy." + n)

    def zeros(self, n, dtype=None):
        self.w.x.check("one entry per state", n == self.w.n)
        return Table(self.w, lambda k: 0)

    def array(self, v):
        w = self.w
        if not isinstance(v, Collected):
            raise Unsupported("array")
        w.x.check("an answer for every state", v.n == w.n)
        if v.what == "output":
            return Table(w, w.output)
        if v.what == "key prior":
            return Rows(w, w.PR, "log prior")
        raise Unsupported("array of " + str(v.what))

    def exp(self, a):
        if not isinstance(a, Matrix) or a.role != "log prior":
            raise Unsupported("exp")
        return Rows(self.w, self.w.P, "prior")

    def argsort(self, a):
        if not isinstance(a, Matrix):
            raise Unsupported("argsort")
        x, w = self.w.x, self.w
        x.check("ordered by descending probability", x.or_(a.same(lambda k, i: -w.PR(k, i)), a.same(lambda k, i: -w.P(k, i))))
        return Rows(w, w.AS, "order")

    def take_along_axis(self, a, order, axis):
        if axis not in (-1, 1) or getattr(order, "role", None) != "order":
            raise Unsupported("take_along_axis")
        return Rows(self.w, lambda k, i: a.fn(k, self.w.AS(k, i)))

    def cumsum(self, a, axis=None):
        if axis not in (-1, 1):
            raise Unsupported("cumsum")
        self.w.x.check("mass of the likeliest keys", a.same(lambda k, i: self.w.P(k, self.w.AS(k, i))))
        return Rows(self.w, self.w.mass)

    def _reached(self, a, axis):
        if axis not in (-1, 1):
            raise Unsupported("axis")
        self.w.x.check("the mass reaches the target", a.same(lambda k, i: self.w.mass(k, i) >= self.w.target))

    def any(self, a, axis=None):
        self._reached(a, axis)
        return Vec(self.w, self.w.ever)

    def argmax(self, a, axis=None):
        self._reached(a, axis)
        return Vec(self.w, lambda k: self.w.x.ite(self.w.ever(k), self.w.firsthit(k), 0))

    def where(self, c, a, b):
        x = self.w.x
        get = lambda v, k: v.fn(k) if isinstance(v, Vec) else v  # noqa: E731
        return Vec(self.w, lambda k: x.ite(c.fn(k), get(a, k), get(b, k)))

    def clip(self, a, lo, hi):
        x = self.w.x
        f = lambda v: x.ite(v < lo, lo, v)  # noqa: E731
        return Vec(self.w, lambda k: x.ite(f(a.fn(k)) > hi, hi, f(a.fn(k))))


class RelativeKeys(No):
    def __init__(self, w):
        self.w = w

    def __getitem__(self, r):
        w, x = self.w, self.w.x
        x.check("a relative key", x.and_(r >= 0, r < w.V))
        return (RelMode(r), w.interval(r))


class RelMode(No):
    def __init__(self, r):
        self.r = r


class World:
    def __init__(self, x, kind):
        self.x, self.kind = x, kind
        self.pt = x.choice("pitch type", PITCH_TYPES)
        self.n = self.m = x.int("states", 0)
        self.t = x.int("tracked state")
        x.assume(x.and_(self.t >= 0, self.t < self.n))
        self.V = x.int("relative keys", 1)
        self.target, self.exponent = x.real("target mass"), x.real("exponent")
        self.branching = x.int("key branching", 1)
        self.batches = x.int("batches", 0)
        x.assume(x.and_(self.cut(0) == 0, self.cut(self.batches) == self.n))
        self.T = self.t  # forced labels: their set is known by its size and, when there is one, its element
        self.caches = tuple(type("Cache", (No,), {})() for _ in range(3))
        self.settings = type("Settings", (No,), {})()
        self.LABELS = {"relative_key": RelativeKeys(self)}
        self.states = Seq(self.n, lambda k: St(self, k))
        self.got_memory = self.got_prior = False
        self.memory, self.mem = None, None
        self.p = x.int("tracked position")
        self.appended = False
        self.at_pos = self.at_rel = None

    def cut(self, b):
        return self.x.ufun("cut", INT, b)

    def has(self, k):
        return self.x.ufun("has memory", BOOL, k)

    def begin(self, k):
        return self.x.ufun("begin", INT, k)

    def end(self, k):
        return self.x.ufun("end", INT, k)

    def key(self, k):
        return self.x.ufun("key", INT, k)

    def tonic(self, k):
        return self.x.ufun("tonic", INT, k)

    def output(self, k):
        return self.x.ufun("output", REAL, k)

    def PR(self, k, r):
        return self.x.ufun("key prior", REAL, k, r)

    def P(self, k, r):
        return self.x.ufun("exp", REAL, self.PR(k, r))

    def AS(self, k, i):
        return self.x.ufun("order", INT, k, i)

    def mass(self, k, i):
        return self.x.ufun("mass", REAL, k, i)

    def ever(self, k):
        return self.x.ufun("reached", BOOL, k)

    def firsthit(self, k):
        return self.x.ufun("reached first", INT, k)

    def interval(self, r):
        return self.x.ufun("interval", INT, r)

    def refused(self, k, key):
        return self.x.ufun("refused", BOOL, k, key)

    def limit(self, k):
        x = self.x
        n = x.ite(self.ever(k), self.firsthit(k) + 1, self.V)
        n = x.ite(n < 1, 1, n)
        return x.ite(n > self.branching, self.branching, n)

    # forced keys
    def forced(self, kind, i):
        return self.x.ufun("forced " + kind, INT, i)

    def count(self, kind, a, b):
        return self.x.ufun("forced count " + kind, INT, a, b)

    def only(self, kind, a, b):
        return self.x.ufun("forced only " + kind, INT, a, b)

    def distinct_facts(self, kind, a, b):
        x = self.x
        x.assume(x.and_(self.count(kind, a, b) >= 0, self.count(kind, a, b) <= 1))
        x.assume(x.implies(self.count(kind, a, b) >= 1, self.only(kind, a, b) >= 0))

    # new keys
    def new_tonic(self, k, r):
        x = self.x
        v = self.tonic(k) + self.interval(r)
        return v % 12 if self.pt == MIDI else v

    def in_range(self, k, r):
        v = self.tonic(k) + self.interval(r)
        return True if self.pt == MIDI else self.x.and_(v >= 0, v < NPITCH[TPC])

    def key_id(self, k, r):
        return self.x.ufun("key id", INT, r, self.new_tonic(k, r))

    def candidate(self, k, i):
        """Position i of the order of state k: a key it may change to."""
        x = self.x
        r = self.AS(k, i)
        key = self.key_id(k, r)
        n, v = self.count("key", self.begin(k), self.end(k)), self.only("key", self.begin(k), self.end(k))
        return x.and_(self.in_range(k, r), x.or_(n == 0, key == v), x.not_(key == self.key(k)), x.not_(self.refused(k, key)))

    def before(self, k, i):
        """Number of candidates before position i."""
        return self.x.ufun("candidates before", INT, k, i)

    def branches(self, k, i):
        x = self.x
        return x.and_(i >= 0, i < self.V, self.candidate(k, i), self.before(k, i) < self.limit(k))

    def facts(self, k, i):
        """Definition of the count, one step; monotone; another position is another key."""
        x = self.x
        x.assume(self.before(k, 0) == 0)
        x.assume(self.before(k, i + 1) == self.before(k, i) + x.ite(self.candidate(k, i), 1, 0))
        p = self.p
        x.assume(x.implies(x.and_(p >= i + 1), self.before(k, p) >= self.before(k, i + 1)))
        rp, ri = self.AS(k, p), self.AS(k, i)
        x.assume(x.implies(
            x.and_(x.not_(p == i), p >= 0, p < self.V, self.in_range(k, rp), self.in_range(k, ri)),
            x.not_(self.key_id(k, rp) == self.key_id(k, ri))))

    def one_hot(self, mode, tonic, pitch_type):
        x = self.x
        if not isinstance(mode, RelMode):
            raise Unsupported("key index")
        x.check("index of the key at hand", pitch_type == self.pt)
        return x.ufun("key id", INT, mode.r, tonic)

    # classes
    def dataset_class(self):
        w = self

        class Settings:
            valid_batch_size = type("BatchSize", (No,), {})()

            def __init__(self, pieces, **k):
                if pieces != []:
                    raise Unsupported("data set")
                w.x.check("settings of the model", k == {"settings": w.settings} and k["settings"] is w.settings)
                self.reduce = ("reduce", w)

        return Settings

    def harmonic(self):
        w = self

        class Dataset:
            def __init__(self, *a):
                self.hidden = None

            def set_hidden_states(self, h):
                self.hidden = h

        return Dataset

    def loader(self, dataset, batch_size=1, shuffle=False, **k):
        x, w = self.x, self
        d = dataset.__dict__
        if k or not isinstance(d.get("inputs"), Inputs):
            raise Unsupported("data loader")
        x.check("every state has its own input", x.and_(d["inputs"].code == 1))
        h = d.get("hidden")
        x.check("with the memory of the states", isinstance(h, tuple) and h is w.memory)
        for part in "hc":
            x.check("every state has its own memory, or none yet", w.mem[part] == x.ite(w.has(w.t), 1, 0))
        x.check("reduced as the model wants it", d.get("reduce") == ("reduce", w))
        x.check("in order", shuffle is False)
        if w.kind == "ksm":
            ln = d.get("input_lengths")
            if not hasattr(type(ln), "vc_at"):
                raise Unsupported("input lengths")
            x.check("with the length of its input", ln.vc_at(w.t) == x.ufun("input length", INT, w.t))
        return Batches(w)


class Loop(LoopContract):
    def __init__(self, w):
        self.w = w


class Gather(Loop):
    def __init__(self, w, name):
        self.w, self.name = w, name
        self.needs = (name,)

    def havoc(self, x, L):
        self.w.mem = {p: x.fresh_int("memory " + p) for p in "hc"}
        return {self.name: Inputs(self.w)}

    def inv(self, x, L):
        w = self.w
        v = L[self.name]
        if not isinstance(v, Inputs):
            return []  # entry: nothing yet
        done = w.t < L["_k"]
        return [("inputs so far", v.code == x.ite(done, 1, 0))] + [
            ("memory so far", w.mem[p] == x.ite(x.and_(done, w.has(w.t)), 1, 0)) for p in "hc"]


class Run(Loop):
    def __init__(self, w, names):
        self.w, self.names = w, names
        self.needs = tuple(names)

    def havoc(self, x, L):
        w = self.w
        return {n: Collected(w, what, w.cut(L["_k"])) for n, what in self.names.items()}

    def inv(self, x, L):
        out = []
        for n in self.names:
            v = L[n]
            if isinstance(v, Collected):
                out.append((n + " so far", x.and_(v.n == self.w.cut(L["_k"]), v.what == self.names[n])))
            elif v != []:
                raise Unsupported("answers so far")
        return out


class Store(Loop):
    def havoc(self, x, L):
        self.w.got_memory, self.w.got_prior = x.fresh_bool("got memory"), x.fresh_bool("got prior")
        return {}

    def inv(self, x, L):
        w = self.w
        done = w.t < L["_k"]
        out = [("memory stored so far", x.implies(done, w.got_memory))]
        if w.kind == "csm":
            out.append(("prior stored so far", x.implies(done, w.got_prior)))
        return out


class NewStates(No):
    def __init__(self, w):
        self.w = w

    def append(self, s):
        w, x = self.w, self.w.x
        if not isinstance(s, New):
            raise Unsupported("collecting something else")
        x.check("a key the state branches into", x.and_(w.branches(s.k, s.pos), s.key == w.key_id(s.k, w.AS(s.k, s.pos))))
        w.appended = x.or_(w.appended, x.and_(s.k == w.t, s.pos == w.p))


class Each(Loop):
    needs = ("new_states",)

    def havoc(self, x, L):
        w = self.w
        w.appended = x.fresh_bool("appended")
        return {"new_states": NewStates(w)}

    def inv(self, x, L):
        w = self.w
        if not isinstance(L["new_states"], NewStates) and L["new_states"] != []:
            raise Unsupported("new states so far")
        return [("every branch of the states so far", x.implies(x.and_(w.t < L["_k"], w.branches(w.t, w.p)), w.appended))]


class Keys(Loop):
    needs = ("new_states", "valid_states", "state")

    def havoc(self, x, L):
        w = self.w
        w.appended = x.fresh_bool("appended")
        return {"new_states": L["new_states"], "valid_states": x.fresh_int("valid states")}

    def inv(self, x, L):
        w = self.w
        k, i = L["state"].k, L["_k"]
        if i is 0:  # noqa: F632 -- entry
            self.before = w.appended
            x.assume(w.before(k, 0) == 0)
        if not isinstance(L["_it"], KeyOrder):
            raise Unsupported("keys")
        x.check("the keys of the state at hand", L["_it"].j is k or bool(L["_it"].j == k))
        return [
            ("what was there stays", x.implies(self.before, w.appended)),
            ("new keys counted", L["valid_states"] == w.before(k, i)),
            ("room for more", w.before(k, i) < w.limit(k)),
            ("every branch so far", x.implies(x.and_(k == w.t, w.p < i, w.branches(w.t, w.p)), w.appended)),
        ]


def setting(x, kind):
    w = World(x, kind)
    name = {"ktm": "key_transition_model", "ksm": "key_sequence_model", "csm": "chord_sequence_model"}[kind]
    m = object.__new__(jm.HarmonicInferenceModel)
    m.__dict__.update({
        "LABELS": w.LABELS, "CHORD_OUTPUT_TYPE": w.pt, "KEY_OUTPUT_TYPE": w.pt, "debugger": None, "duration_cache": w.caches[0],
        "onset_cache": w.caches[1], "onset_level_cache": w.caches[2], "forced_key_ids": Labels(w, "key"),
        "target_key_branch_prob": w.target, "max_key_branching_factor": w.branching, "ksm_exponent": w.exponent, name: Model(w),
    })
    x.replace(jm, "np", Numpy(w), "numpy: elementwise meaning of exp, argsort, take_along_axis, cumsum, any, argmax, where, clip")
    x.replace(jm, "torch", Torch, "torch.transpose swaps the first two axes")
    x.replace(jm, "DataLoader", w.loader, "data loader: the items in order, in consecutive batches; a model answers each item in its place")
    x.replace(jm.ds, {"ktm": "KeyTransitionDataset", "ksm": "KeySequenceDataset", "csm": "ChordSequenceDataset"}[kind], w.dataset_class())
    x.replace(jm.ds, "HarmonicDataset", w.harmonic(), "HarmonicDataset: an item is its input and memory (C14)")
    return w, m


def memory_and_outputs(x, kind):
    w, m = setting(x, kind)
    f = {"ktm": "get_key_change_probs", "ksm": "get_key_change_states", "csm": "run_csm_batched"}[kind]
    first = {"ktm": ("outputs", "output"), "ksm": ("key_log_priors", "key prior"), "csm": ("priors", "prior")}[kind]
    key = LOOP + f + "#"
    x.loop(key + "0", Gather(w, kind + "_inputs"))
    x.loop(key + "1", Run(w, {first[0]: first[1], "hidden_states": "new h", "cell_states": "new c"}))
    x.loop(key + "2", Store(w))
    if kind == "ksm":
        x.loop(key + "3", Each(w))
        x.loop(key + "4", Keys(w))
        x.replace(jm.hu, "get_key_one_hot_index", w.one_hot, "get_key_one_hot_index: contract C03")
        x.assumption("relative keys with different labels lead to different keys (C03)")
    hidden_only = False if kind == "csm" else x.choice("memory only", [False, True])
    a = (w.states,) if kind == "csm" else (w.states, hidden_only)
    out = x.returns("returns", x.call(getattr(m, f), *a))
    x.check("every state has its new memory", w.got_memory)
    if kind == "csm":
        x.check("every state has the prior for what follows it", w.got_prior)
        return
    if hidden_only:
        x.check("nothing else", out is None)
        return
    if kind == "ktm":
        if not isinstance(out, Table):
            raise Unsupported("result")
        x.check("the probability of each state, in its place", out.fn(w.t) == x.ite(w.begin(w.t) > 0, w.output(w.t), 0))
        return
    if not isinstance(out, NewStates):
        raise Unsupported("result")
    x.check("every key a state branches into", x.implies(w.branches(w.t, w.p), w.appended))
