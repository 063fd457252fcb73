"""The verification-condition generator: path-complete symbolic execution of instrumented repository
code, with loop invariants (cut points) and callee contracts, and the concrete twin that runs the
same contracts against the untouched code."""
import builtins
import os
import random
import re
import sys
import time
import traceback
from fractions import Fraction

from . import smt, sym
from .smt import BOOL, INT, REAL
from .sym import EngineSignal, PathEnd, Rope, SymBool, SymNum, Unsupported, term, wrap


MISSING = object()
CONTRACTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts") + os.sep


def lacking(e):
    """Is this the error of a stand-in of the contracts that cannot do what the code asks of it?"""
    if not isinstance(e, (TypeError, AttributeError)) or "NoneType" in str(e):
        return False
    names = set(re.findall(r"'(\w+)'", str(e)))
    for m in list(sys.modules.values()):
        if names and (getattr(m, "__file__", None) or "").startswith(CONTRACTS):
            for n in names:
                c = getattr(m, n, None)
                if isinstance(c, type) and c.__module__ == m.__name__:
                    return True
    return False


class Outcome:
    """What a call did: returned a value, or raised."""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)

    def __repr__(self):
        return f"returned {self.value!r}" if self.ok else f"raised {self.exc!r}"


class Rec:
    __slots__ = ("terms", "vals", "cur", "key")

    def __init__(self, terms, vals, key):
        self.terms, self.vals, self.cur, self.key = terms, vals, 0, key


class Failure:
    def __init__(self, label, inputs, detail, kind):
        self.label, self.inputs, self.detail, self.kind = label, inputs, detail, kind


class CheckFailed(Exception):
    def __init__(self, label):
        super().__init__(label)
        self.label = label


class Discard(Exception):
    pass


class Base:
    """API common to the symbolic and the concrete context (given to every contract harness)."""

    and_ = staticmethod(sym.and_)
    or_ = staticmethod(sym.or_)
    not_ = staticmethod(sym.not_)
    implies = staticmethod(sym.implies)
    iff = staticmethod(sym.iff)
    ite = staticmethod(sym.ite)

    def call(self, fn, *a, **k):
        try:
            return Outcome(fn(*a, **k))
        except (CheckFailed, Discard):
            raise
        except (Exception, SystemExit) as e:  # noqa: BLE001 -- the exception is the observation
            if self.symbolic and lacking(e):
                raise Unsupported(f"stand-in: {e}")
            return Outcome(exc=e)

    def returns(self, label, out):
        """The call must have returned normally; gives its value."""
        self.check(label, out.ok, detail=repr(out))
        return out.value

    def note(self, **k):
        self.notes.update(k)


class SymCtx(Base):
    symbolic = True

    def __init__(self, name, budget_s=120.0, max_paths=200000, second=False, solver_timeout=10000):
        self.name = name
        self.budget_s = budget_s
        self.max_paths = max_paths
        self.second = second
        self.solver = smt.Solver(timeout_ms=solver_timeout)
        self.D = []
        self.failures = []
        self.unsupported = []
        self.undecided = []
        self.obl = {}  # label -> [instances, discharged by z3, by constant folding, by cvc5]
        self.paths = 0
        self.cvc5_time = 0.0
        self.second_agree = 0
        self.loops = {}
        self.patches = []
        self.notes = {}
        self.sat_calls = 0
        self.max_fail = 4
        self.mode_unroll = None  # when set: loop contracts off, unroll at most this many times
        self.assumed = set()
        self.cut_loops = set()

    # -- path bookkeeping -----------------------------------------------------------------------
    def _reset(self):
        self.di = 0
        self.fresh_n = 0
        self.inputs = []
        self.unroll = {}
        self.loop_now = []
        self.tracked, self.witness = [], []

    @property
    def replaying(self):
        return self.di < len(self.D)

    def run(self, harness):
        sym.set_engine(self)
        t0 = time.time()
        self.deadline = t0 + self.budget_s
        self.solver.push()
        self.paths_done = 0
        while True:
            self._reset()
            self.paths += 1
            try:
                harness(self)
                self.paths_done += 1
            except PathEnd:
                self.paths_done += 1
            except Unsupported as e:
                if len(self.unsupported) < 20:
                    self.unsupported.append(str(e) + " @ " + _where(e))
                if len(self.unsupported) >= 5:
                    break
            except CheckFailed:
                pass
            except EngineSignal:
                raise
            except RecursionError as e:
                self.unsupported.append("recursion: " + str(e))
                break
            except Exception as e:  # the contract text itself could not be evaluated
                tb = traceback.format_exc(limit=-6)
                self._fail("contract evaluates", f"{type(e).__name__}: {e}\n{tb}", "crash")
            finally:
                self._unpatch()
            if len(self.failures) >= self.max_fail:
                break
            if time.time() > self.deadline:
                self.unsupported.append("time budget exhausted")
                break
            if self.paths >= self.max_paths:
                self.unsupported.append("path budget exhausted")
                break
            # backtrack
            while self.D and self.D[-1].cur + 1 >= len(self.D[-1].terms):
                self.D.pop()
                self.solver.pop()
            if not self.D:
                break
            r = self.D[-1]
            r.cur += 1
            self.solver.pop()
            self.solver.push()
            self.solver.add(r.terms[r.cur])
        self.wall = time.time() - t0
        self.solver.close()
        sym.set_engine(None)

    def _sat(self, t):
        self.sat_calls += 1
        if time.time() > self.deadline + 30:
            raise Unsupported("time budget exhausted (inside a path)")
        self.solver.push()
        self.solver.add(t)
        r = self.solver.check()
        self.solver.pop()
        return r

    def _take(self, terms, vals, key):
        rec = Rec(terms, vals, key)
        self.D.append(rec)
        self.di += 1
        self.solver.push()
        self.solver.add(terms[0])
        return vals[0]

    def decide(self, t):
        if t.op == "lit":
            return bool(t.val)
        if self.replaying:
            rec = self.D[self.di]
            if rec.key != ("b", t.op, t.size):
                raise RuntimeError(f"non-deterministic replay: {rec.key} vs {t.op, t.size}")
            self.di += 1
            return rec.vals[rec.cur]
        nt = smt.not_(t)
        can_t = self._sat(t) != "unsat"
        can_f = True if not can_t else self._sat(nt) != "unsat"
        terms, vals = [], []
        if can_t:
            terms.append(t)
            vals.append(True)
        if can_f:
            terms.append(nt)
            vals.append(False)
        return self._take(terms, vals, ("b", t.op, t.size))

    def concretise(self, t, limit=4000):
        """Case split over every feasible value of an integer term."""
        if t.op == "lit":
            return t.val
        if self.replaying:
            rec = self.D[self.di]
            if rec.key != ("e", t.op, t.size):
                raise RuntimeError("non-deterministic replay (enum)")
            self.di += 1
            return rec.vals[rec.cur]
        if t.sort != INT:
            raise Unsupported("case split over a non-integer")
        vals = []
        self.solver.push()
        try:
            while True:
                r = self.solver.check()
                if r == "unsat":
                    break
                if r != "sat":
                    raise Unsupported("solver unknown while enumerating")
                (v,) = self.solver.values([t])
                vals.append(v)
                if len(vals) > limit:
                    raise Unsupported("case split over an unbounded integer")
                self.solver.add(smt.not_(smt.eq(t, smt.lit(v))))
                # probe: unbounded domains are recognised early
                if len(vals) == 64:
                    big = smt.or_(smt.lt(t, smt.lit(-100000)), smt.lt(smt.lit(100000), t))
                    self.solver.push()
                    self.solver.add(big)
                    rr = self.solver.check()
                    self.solver.pop()
                    if rr != "unsat":
                        raise Unsupported("case split over an unbounded integer")
        finally:
            self.solver.pop()
        if not vals:
            raise PathEnd()
        vals.sort()
        return self._take([smt.eq(t, smt.lit(v)) for v in vals], vals, ("e", t.op, t.size))

    # -- harness API ------------------------------------------------------------------------------
    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            i = 0
        elif self.replaying:
            rec = self.D[self.di]
            if rec.key != ("c", name):
                raise RuntimeError("non-deterministic replay (choice)")
            self.di += 1
            i = rec.vals[rec.cur]
        else:
            i = self._take([smt.TRUE] * len(options), list(range(len(options))), ("c", name))
        if name is not None:
            self.inputs.append((name, "choice", i))
        return options[i]

    def _var(self, name, sort):
        return smt.var("|" + name + "|", sort)

    def int(self, name, lo=None, hi=None):
        """An arbitrary integer in [lo, hi)."""
        t = self._var(name, INT)
        self.inputs.append((name, "int", t))
        v = wrap(t)
        if lo is not None:
            self._assume_t(smt.le(smt.lit(int(lo)), t))
        if hi is not None:
            self._assume_t(smt.lt(t, smt.lit(int(hi))))
        return v

    def real(self, name, lo=None, hi=None):
        t = self._var(name, REAL)
        self.inputs.append((name, "real", t))
        if lo is not None:
            self._assume_t(smt.le(smt.lit(Fraction(lo)), t))
        if hi is not None:
            self._assume_t(smt.le(t, smt.lit(Fraction(hi))))
        return wrap(t)

    def bool(self, name):
        t = self._var(name, BOOL)
        self.inputs.append((name, "bool", t))
        return wrap(t)

    def repeat(self, ch, n):
        return sym.rope_repeat(ch, n) if isinstance(n, SymNum) else ch * n

    def opaque(self, name, first_not="", last_not="", pool=("X",)):
        self.inputs.append((name, "opaque", pool[0]))
        n = wrap(smt.var("|len " + name + "|", INT))
        self._assume_t(smt.le(smt.lit(1), n.t))
        return Rope([("o", sym.Opaque(name, n, first_not, last_not))])

    def decimal(self, n):
        return Rope([("d", n)]) if isinstance(n, SymNum) else str(n)

    def fresh_int(self, base="f"):
        self.fresh_n += 1
        return wrap(smt.var(f"|{base}!{self.fresh_n}|", INT))

    def fresh_real(self, base="f"):
        self.fresh_n += 1
        return wrap(smt.var(f"|{base}!{self.fresh_n}|", REAL))

    def fresh_bool(self, base="f"):
        self.fresh_n += 1
        return wrap(smt.var(f"|{base}!{self.fresh_n}|", BOOL))

    def ufun(self, name, sort, *args):
        return wrap(smt.app("u!" + name.replace(" ", "_"), [term(a) for a in args], sort))

    def _assume_t(self, t):
        if t.op == "lit":
            if not t.val:
                raise PathEnd()
            return
        if self.replaying:
            return
        self.solver.add(t)

    def assume(self, cond):
        t = sym._b(cond) if isinstance(cond, (SymBool, SymNum)) else smt.lit(bool(cond))
        self._assume_t(t)
        if t.op != "lit" and not self.replaying:
            if self.solver.check() == "unsat":
                raise PathEnd()

    def _model(self):
        terms = [x[2] for x in self.inputs if x[1] in ("int", "real", "bool")]
        try:
            vals = iter(self.solver.values(terms))
        except (smt.SolverError, TimeoutError):
            return None
        out = {}
        for name, kind, x in self.inputs:
            if kind in ("choice", "opaque"):
                out[name] = x
            else:
                v = next(vals)
                out[name] = str(v) if isinstance(v, Fraction) else v
        return out

    def _fail(self, label, detail, kind):
        r = self.solver.check()
        m = self._model() if r == "sat" else None
        self.failures.append(Failure(label, m, detail, kind))

    def check(self, label, cond, detail=""):
        if self.replaying:
            return
        if isinstance(cond, (SymBool, SymNum)):
            t = sym._b(cond)
        else:
            t = smt.lit(bool(cond))
        o = self.obl.setdefault(label, [0, 0, 0, 0])
        o[0] += 1
        if t.op == "lit":
            if t.val:
                o[2] += 1
                return
            self._fail(label, detail, "refuted")
            raise CheckFailed(label)
        nt = smt.not_(t)
        self.solver.push()
        self.solver.add(nt)
        r = self.solver.check()
        if r == "sat":
            m = self._model()
            self.failures.append(Failure(label, m, detail, "refuted"))
            self.solver.pop()
            raise CheckFailed(label)
        self.solver.pop()
        if r == "unsat":
            o[1] += 1
            if self.second:
                ans, dt = smt.run_cvc5(self.solver.dump(nt))
                self.cvc5_time += dt
                if ans == "unsat":
                    self.second_agree += 1
                elif ans == "sat":
                    self.undecided.append((label, "back ends disagree: z3 unsat, cvc5 sat"))
            self.solver.add(t)
            return
        ans, dt = smt.run_cvc5(self.solver.dump(nt))
        self.cvc5_time += dt
        if ans == "unsat":
            o[3] += 1
            self.solver.add(t)
            return
        self.undecided.append((label, f"z3 {r}, cvc5 {ans}"))
        raise CheckFailed(label)

    # -- contracts at call sites --------------------------------------------------------------------
    def stub(self, owner, attr, fn, why=None):
        """Replace a callee by its contract for the rest of this path."""
        if self.mode_unroll is not None:
            return
        if attr not in vars(owner):
            return
        self.patches.append((owner, attr, vars(owner)[attr]))
        setattr(owner, attr, fn)
        if why:
            self.assumed.add(why)

    def replace(self, owner, attr, value, why=None):
        """Replace a dependency (library object, or built-in function) by its assumed contract."""
        if attr not in vars(owner) and not hasattr(builtins, attr):
            return
        self.patches.append((owner, attr, vars(owner).get(attr, MISSING)))
        setattr(owner, attr, value)
        if why:
            self.assumed.add(why)

    def _unpatch(self):
        while self.patches:
            owner, attr, old = self.patches.pop()
            if old is MISSING:
                delattr(owner, attr)
            else:
                setattr(owner, attr, old)

    def loop(self, key, contract):
        """Activate a loop contract (function qualname, ordinal) for this harness."""
        self.loops[key] = contract

    def loop_contract(self, key):
        if self.mode_unroll is not None:
            return None
        return self.loops.get(key)

    def assumption(self, text):
        self.assumed.add(text)


def _where(e):
    tb = e.__traceback__
    out = []
    while tb is not None:
        f = tb.tb_frame.f_code
        if "harmonic_inference" in f.co_filename:
            out.append(f"{f.co_filename.split('/')[-1]}:{f.co_name}:{tb.tb_lineno}")
        tb = tb.tb_next
    return out[-1] if out else "?"


class ConCtx(Base):
    """Runs the same contracts on the untouched code with ordinary values."""

    symbolic = False
    mode_unroll = None

    def __init__(self, rng=None, given=None, consts=()):
        self.rng = rng or random.Random(0)
        self.given = given or {}
        self.inputs = {}
        self.checked = []
        self.notes = {}
        self.consts = list(consts)

    def _rec(self, name, v, shown=None):
        if name is not None:
            self.inputs[name] = v if shown is None else shown
        return v

    def choice(self, name, options):
        options = list(options)
        if name in self.given and self.given[name] is not None:
            i = int(self.given[name]) % len(options)
        else:
            i = self.rng.randrange(len(options))
        self._rec(name, i)
        return options[i]

    def int(self, name, lo=None, hi=None):
        if name in self.given and self.given[name] is not None:
            return self._rec(name, int(self.given[name]))
        r = self.rng
        if lo is not None and hi is not None:
            if hi <= lo:
                raise Discard()
            u = r.random()
            if u < 0.1:
                v = lo
            elif u < 0.2:
                v = hi - 1
            elif u < 0.3 and self.consts:
                v = r.choice(self.consts) + r.choice((-1, 0, 1))
                v = min(max(v, lo), hi - 1)
            else:
                v = r.randrange(lo, hi)
        else:
            u = r.random()
            if u < 0.5:
                v = r.randint(-40, 40)
            elif u < 0.65 and self.consts:
                v = r.choice(self.consts) * r.choice((1, 1, -1)) + r.choice((-1, 0, 1))
            elif u < 0.8:
                v = r.randint(-4, 4)
            else:
                v = r.randint(-10000, 10000)
            if lo is not None and v < lo:
                v = lo + (lo - v) % 60
            if hi is not None and v >= hi:
                v = hi - 1 - (v - hi) % 60
        return self._rec(name, v)

    def real(self, name, lo=None, hi=None):
        if name in self.given and self.given[name] is not None:
            return self._rec(name, Fraction(self.given[name]), str(self.given[name]))
        r = self.rng
        if lo is not None and hi is not None:
            v = lo + (Fraction(hi) - Fraction(lo)) * Fraction(r.randint(0, 24), 24)
        else:
            v = Fraction(r.randint(-48, 48), r.choice((1, 2, 3, 4, 6, 8, 12)))
            if lo is not None and v < lo:
                v = Fraction(lo) + (Fraction(lo) - v)
            if hi is not None and v > hi:
                v = Fraction(hi) - (v - Fraction(hi))
        return self._rec(name, Fraction(v), str(Fraction(v)))

    def bool(self, name):
        if name in self.given and self.given[name] is not None:
            return self._rec(name, bool(self.given[name]))
        return self._rec(name, bool(self.rng.getrandbits(1)))

    def repeat(self, ch, n):
        return ch * n

    def opaque(self, name, first_not="", last_not="", pool=("X",)):
        if name in self.given and self.given[name] is not None:
            return self._rec(name, self.given[name])
        return self._rec(name, self.rng.choice(list(pool)))

    def decimal(self, n):
        return str(n)

    def assume(self, cond):
        if not cond:
            raise Discard()

    def check(self, label, cond, detail=""):
        self.checked.append(label)
        if not cond:
            if detail:
                self.notes["detail"] = str(detail)[:500]
            raise CheckFailed(label)

    def stub(self, *a, **k):
        pass

    replace = stub

    def loop(self, *a, **k):
        pass

    def assumption(self, text):
        pass
