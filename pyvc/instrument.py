"""Loads /repo's modules from their current source.

mode 'sym': the source is parsed and mechanically instrumented on every run:
  * `a[b]` and `a in b` become helper calls (identical on ordinary values, case-splitting on symbolic ones);
  * loops get a second, cut-point form used only when a loop contract is active for them;
  * a few builtins (len, range, int, str, isinstance, ...) are shadowed by versions that also accept symbolic values.
Dropped: nothing of the executable code (annotations and docstrings stay, they are inert).
mode 'real': nothing is changed; the modules are imported as they are.

In both modes packages that are not installed here (torch, pytorch_lightning, h5py) are replaced by inert stubs.
"""
import abc
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types
from fractions import Fraction

import numpy as np

from . import seq, smt, sym
from .sym import PathEnd, Rope, SymBool, SymInt, SymNum, SymReal, Unsupported, term, wrap

REPO = os.environ.get("PYVC_REPO", "/repo")


# ---- stubs for packages that are not installed ---------------------------------------------------
class _StubMeta(abc.ABCMeta):
    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _stub_class(name)


def _stub_class(name):
    return _StubMeta(str(name), (object,), {"__init__": lambda self, *a, **k: None, "_pyvc_stub": True})


class _StubModule(types.ModuleType):
    __path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        full = self.__name__ + "." + name
        if full in sys.modules:
            return sys.modules[full]
        if name == "no_grad":
            return lambda *a, **k: (lambda f: f)
        c = _stub_class(name)
        setattr(self, name, c)
        return c


class _StubFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    ROOTS = ("torch", "pytorch_lightning", "h5py", "tqdm", "seaborn", "matplotlib")

    def __init__(self):
        self.roots = [r for r in self.ROOTS if not self._installed(r)]

    @staticmethod
    def _installed(r):
        try:
            return importlib.util.find_spec(r) is not None
        except Exception:
            return False

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.roots:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        return _StubModule(spec.name)

    def exec_module(self, module):
        pass


# ---- helpers used by instrumented code -----------------------------------------------------------
def vc_getitem(a, b):
    if isinstance(b, Rope) and isinstance(a, dict):
        for k in a:
            if isinstance(k, str) and b == k:
                return a[k]
        raise KeyError("symbolic key")
    if isinstance(b, (SymNum, SymBool)) and type(a) is dict:
        if len(a) <= 64:
            for k in a:
                if term(k) is not None and b == k:
                    return a[k]
            raise KeyError("symbolic key")
    return a[b]


def vc_in(a, b):
    if isinstance(b, (dict, set, frozenset)) and isinstance(a, (Rope, SymNum)):
        for k in b:
            if a == k:
                return True
        return False
    if type(b) is type({}.keys()) and isinstance(a, (Rope, SymNum)):
        return any(bool(a == k) for k in list(b))
    if isinstance(a, Rope) and isinstance(b, str):
        for p in a.parts:
            if p[0] == "o":
                raise Unsupported("opaque in str")
        subs = sorted({b[i:j] for i in range(len(b) + 1) for j in range(i, len(b) + 1)})
        return any(a.eq_str(x) for x in subs)
    return a in b


def vc_len(x):
    if isinstance(x, Rope):
        return x.length()
    f = getattr(type(x), "vc_len", None)
    if f is not None:
        return f(x)
    if not isinstance(x, (list, tuple, dict, str, np.ndarray)):
        m = getattr(type(x), "__len__", None)
        if isinstance(m, types.FunctionType):  # a Python-level __len__ may give a symbolic length
            return m(x)
    return builtins.len(x)


def vc_int(x=0, *a):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._i()
    if isinstance(x, SymReal):
        # truncation towards zero
        t = x.t
        fl = smt.floor(t)
        up = smt.neg(smt.floor(smt.neg(t)))
        return wrap(smt.ite(smt.le(smt.lit(Fraction(0)), t), fl, up))
    if isinstance(x, Rope):
        if len(x.parts) == 1 and x.parts[0][0] == "d":
            return x.parts[0][1]
        raise Unsupported("int() of symbolic text")
    return builtins.int(x, *a)


def vc_float(x=0.0):
    if isinstance(x, SymNum):
        return wrap(smt.to_real(x.t))
    return builtins.float(x)


def vc_bool(x=False):
    if isinstance(x, (SymBool, SymNum)):
        return wrap(sym._b(x))
    return builtins.bool(x)


def vc_str(x="", *a):
    if isinstance(x, Rope):
        return x
    if isinstance(x, SymInt):
        return Rope([("d", x)])
    return builtins.str(x, *a)


def _cls_match(x, cls):
    cs = cls if isinstance(cls, tuple) else (cls,)
    cs = tuple(c.__dict__.get("vc_real", c) if hasattr(c, "__dict__") else c for c in cs)
    real = {vc_int: int, vc_float: float, vc_bool: bool, vc_str: str}
    cs = tuple(real.get(c, c) if isinstance(c, types.FunctionType) else c for c in cs)
    if isinstance(x, SymInt):
        return any(issubclass(int, c) or c is np.integer for c in cs)
    if isinstance(x, SymBool):
        return any(issubclass(bool, c) for c in cs)
    if isinstance(x, SymReal):
        return any(c in (float, Fraction, object) for c in cs)
    if isinstance(x, Rope):
        return any(c in (str, object) for c in cs)
    return builtins.isinstance(x, cs)


def vc_isinstance(x, cls):
    return _cls_match(x, cls)


class VcRange:
    """range() with a symbolic bound: iterable by case split, or through a loop contract."""

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def vc_len(self):
        if self.step == 1:
            return sym.maximum(self.hi - self.lo, 0)
        if self.step == -1:
            return sym.maximum(self.lo - self.hi, 0)
        raise Unsupported("symbolic range step")

    def vc_at(self, k):
        return self.lo + k * self.step

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of symbolic range")
        n = self.vc_len()
        if i < 0:
            i = n + i
        if i >= n or i < 0:
            raise IndexError("range object index out of range")
        return self.vc_at(i)

    def __iter__(self):
        i, n = self.lo, 0
        while (i < self.hi) if self.step > 0 else (i > self.hi):
            yield i
            i = i + self.step
            n += 1
            sym_limit(n)

    def __contains__(self, v):
        if self.step != 1:
            raise Unsupported("in symbolic range step")
        return builtins.bool(sym.and_(v >= self.lo, v < self.hi))


def sym_limit(n):
    lim = sym.ENG.mode_unroll if sym.ENG is not None else None
    if lim is None:
        if n > 400:
            raise Unsupported("loop without contract does not terminate within 400 iterations")
    elif n > lim:
        raise PathEnd()


def vc_range(*a):
    if any(isinstance(x, SymNum) for x in a):
        lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a + (1,))[:3]
        return VcRange(lo, hi, step)
    return builtins.range(*a)


class VcEnum:
    def __init__(self, it, start=0):
        self.it, self.start = it, start

    def vc_len(self):
        return vc_len(self.it)

    def vc_at(self, k):
        return (k + self.start, vc_at(self.it, k))

    def __iter__(self):
        for k, v in builtins.enumerate(self.it):
            yield k + self.start, v


class VcZip:
    def __init__(self, its):
        self.its = its

    def vc_len(self):
        n = vc_len(self.its[0])
        for it in self.its[1:]:
            n = sym.minimum(n, vc_len(it))
        return n

    def vc_at(self, k):
        return tuple(vc_at(it, k) for it in self.its)

    def __iter__(self):
        return builtins.zip(*self.its)


def vc_at(it, k):
    f = getattr(type(it), "vc_at", None)
    if f is not None:
        return f(it, k)
    return it[k]


def _abstract(x):
    return hasattr(type(x), "vc_at")


def vc_enumerate(it, start=0):
    if _abstract(it):
        return VcEnum(it, start)
    return builtins.enumerate(it, start)


def vc_zip(*its):
    if its and any(_abstract(i) for i in its):
        return VcZip(its)
    return builtins.zip(*its)


class VcReversed:
    def __init__(self, it):
        self.it = it

    def vc_len(self):
        return vc_len(self.it)

    def vc_at(self, k):
        return vc_at(self.it, vc_len(self.it) - 1 - k)

    def __iter__(self):
        return iter(builtins.reversed(builtins.list(self.it)))


def vc_reversed(it):
    if _abstract(it):
        return VcReversed(it)
    return builtins.reversed(it)


def vc_list(it=()):
    if isinstance(it, VcRange):
        return it
    f = getattr(type(it), "vc_list", None)
    if f is not None:
        return f(it)
    return builtins.list(it)


def vc_set(it=()):
    f = getattr(type(it), "vc_set", None)
    return f(it) if f is not None else builtins.set(it)


def vc_sum(it, start=0):
    f = getattr(type(it), "vc_sum", None)
    if f is not None:
        return f(it) + start
    return builtins.sum(it, start)


def _vc_best(name):
    builtin = getattr(builtins, name)

    def best(*a, **k):
        if builtins.len(a) == 1 and not k:
            x = a[0]
            f = getattr(type(x), "vc_" + name, None)
            if f is not None:
                return f(x)
            it = getattr(type(x), "__iter__", None)
            if builtins.isinstance(it, types.FunctionType):
                i = it(x)
                f = getattr(type(i), "vc_" + name, None)
                return f(i) if f is not None else builtin(i)
        return builtin(*a, **k)

    return best


class _FractionMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (Fraction, SymReal))

    def __call__(cls, n=0, d=None, **k):
        if isinstance(n, SymNum) or isinstance(d, SymNum):
            if d is None:
                return wrap(smt.to_real(n.t))
            return sym.div(n, d)
        return Fraction(n, d) if d is not None else Fraction(n)


class VcFraction(metaclass=_FractionMeta):
    vc_real = Fraction


class _MathShim:
    def __getattr__(self, n):
        return getattr(__import__("math"), n)

    def floor(self, x):
        return wrap(smt.floor(x.t)) if isinstance(x, SymNum) else __import__("math").floor(x)


# ---- numpy --------------------------------------------------------------------------------------
def _has_sym(x, depth=0):
    if isinstance(x, (SymNum, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, (SymNum, SymBool)) for v in x.ravel())
    if depth < 4 and isinstance(x, (list, tuple)):
        return any(_has_sym(v, depth + 1) for v in x)
    return False


class NpShim:
    """numpy, with the handful of array constructors/reductions that would force a symbolic entry into
    a machine float returning object arrays instead.  Everything else is numpy itself."""

    def __init__(self):
        self.object_arrays = False

    def __getattr__(self, n):
        return getattr(np, n)

    def _mk(self, a, dtype=None):
        if self.object_arrays:
            out = np.empty(a.shape, dtype=object)
            for i, v in np.ndenumerate(a):
                out[i] = v.item() if hasattr(v, "item") else v
            return out
        return a

    def zeros(self, *a, **k):
        return self._mk(np.zeros(*a, **k))

    def ones(self, *a, **k):
        return self._mk(np.ones(*a, **k))

    def full(self, *a, **k):
        return self._mk(np.full(*a, **k))

    def empty_like(self, x, *a, **k):
        return np.empty_like(x, *a, **k)

    def array(self, x, *a, **k):
        if isinstance(x, (VcRange,)):
            x = builtins.list(x)
        if _has_sym(x):
            return np.array(x, dtype=object)
        return np.array(x, *a, **k)

    asarray = array

    def sum(self, x, *a, **k):
        f = getattr(type(x), "vc_sum", None)
        if f is not None and not a and not k:
            return f(x)
        if _has_sym(x):
            return np.sum(np.array(x, dtype=object), *a, **k)
        return np.sum(x, *a, **k)

    def abs(self, x):
        if isinstance(x, SymNum):
            return builtins.abs(x)
        return np.abs(x)

    def isnan(self, x):
        if isinstance(x, SymNum):
            return False
        return np.isnan(x)

    def where(self, c, *a):
        return np.where(c, *a)


NP = NpShim()


class _PdShim:
    def __getattr__(self, n):
        return getattr(__import__("pandas"), n)

    def isnull(self, x):
        if isinstance(x, (SymNum, Rope, SymBool)):
            return False
        f = getattr(type(x), "vc_isnull", None)
        if f is not None:
            return f(x)
        return __import__("pandas").isnull(x)

    isna = isnull

    def notnull(self, x):
        return sym.not_(self.isnull(x))

    notna = notnull


SHADOW = {
    "len": vc_len,
    "isinstance": vc_isinstance,
    "range": vc_range,
    "enumerate": vc_enumerate,
    "zip": vc_zip,
    "reversed": vc_reversed,
    "sum": vc_sum,
    "max": _vc_best("max"),
    "min": _vc_best("min"),
}
# type names keep their meaning as values; only direct calls `int(x)` etc. are redirected
CALLS = {"int": "_vc_int", "float": "_vc_float", "str": "_vc_str", "list": "_vc_list", "bool": "_vc_bool", "set": "_vc_set"}


# ---- loop contracts ------------------------------------------------------------------------------
class Unbound:
    def __init__(self, name):
        self.name = name

    def _no(self, *a, **k):
        raise Unsupported(f"value of {self.name} is not described by the loop contract")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __getitem__ = __call__ = __iter__ = _no
    __bool__ = __len__ = __lt__ = __gt__ = __le__ = __ge__ = __index__ = __contains__ = _no
    __setitem__ = __rmul__ = __truediv__ = __mod__ = __neg__ = __enter__ = _no

    def __eq__(self, o):
        self._no()

    __hash__ = None

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        self._no()


class LoopContract:
    """Subclass: `vars` names the loop-carried variables the invariant speaks about.

    havoc(x, L) -> {name: arbitrary value};  inv(x, L) -> [(label, cond)];  variant(x, L) -> int or None.
    L is the dictionary of locals; in for-loops L['_k'] is the number of finished iterations and
    L['_it'] the iterable.
    """

    needs = ()

    def havoc(self, x, L):
        return {}

    def inv(self, x, L):
        return []

    def variant(self, x, L):
        return None

    def at_exit(self, x, L):
        return None


class LoopRun:
    def __init__(self, key, contract, eng, L, it=None):
        self.key, self.c, self.x = key, contract, eng
        eng.cut_loops.add(key)
        self.it = it
        self.L0 = dict(L)
        self.k = None
        L = self._ext(L, 0)
        for n in contract.needs:
            if n not in L:
                raise Unsupported(f"loop contract of {key}: no local named {n}")
        for label, cond in contract.inv(eng, L):
            eng.check(f"{key}: invariant holds on entry: {label}", cond)

    def _ext(self, L, k):
        L = dict(L)
        L["_entry"] = self.L0
        if self.it is not None:
            L["_k"], L["_it"] = k, self.it
        return L

    def havoc(self, names, L):
        if self.it is not None:
            self.n = vc_len(self.it)
            self.k = self.x.fresh_int("k")
            self.x.assume(sym.and_(self.k >= 0, self.k <= self.n))
        new = self.c.havoc(self.x, self._ext(L, self.k))
        for n in new:
            if n not in names:
                raise Unsupported(f"loop contract of {self.key}: the loop does not change {n}")
        out = []
        L = dict(L)
        for n in names:
            v = new[n] if n in new else Unbound(n)
            out.append(v)
            L[n] = v
        for label, cond in self.c.inv(self.x, self._ext(L, self.k)):
            self.x.assume(cond)
        self.var0 = self.c.variant(self.x, self._ext(L, self.k))
        return out

    def more(self):
        return builtins.bool(self.k < self.n)

    def item(self):
        return vc_at(self.it, self.k)

    def close(self, L):
        """End of the loop body: the invariant must hold again."""
        x = self.x
        L = self._ext(L, self.k + 1 if self.k is not None else None)
        for label, cond in self.c.inv(x, L):
            x.check(f"{self.key}: invariant preserved: {label}", cond)
        if self.var0 is not None:
            v = self.c.variant(x, L)
            x.check(f"{self.key}: terminates", sym.and_(self.var0 >= 0, v < self.var0))
        raise PathEnd()


def vc_cut(key):
    return sym.ENG is not None and sym.ENG.loop_contract(key) is not None


def vc_loop(key, L, it=None, isfor=False):
    return LoopRun(key, sym.ENG.loop_contract(key), sym.ENG, L, it if isfor else None)


def vc_tick(key):
    e = sym.ENG
    if e is not None:
        n = e.unroll.get(key, 0) + 1
        e.unroll[key] = n
        sym_limit(n)
    return True


def vc_times(a, n):
    if isinstance(n, SymInt):
        v = a[0]
        return seq.Seq(sym.maximum(n, 0), lambda k: v)
    return a * n


HELPERS = {
    "_vc_times": vc_times,
    "_vc_comp": seq.comp,
    "_vc_getitem": vc_getitem,
    "_vc_in": vc_in,
    "_vc_cut": vc_cut,
    "_vc_loop": vc_loop,
    "_vc_tick": vc_tick,
    "_vc_int": vc_int,
    "_vc_float": vc_float,
    "_vc_str": vc_str,
    "_vc_list": vc_list,
    "_vc_bool": vc_bool,
    "_vc_set": vc_set,
}


def _assigned(nodes):
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def _comp(self, n):
            pass

        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    v = V()
    for n in nodes:
        v.visit(n)
    return out


MUTATORS = {
    "append", "extend", "insert", "pop", "remove", "add", "update", "discard", "clear", "sort", "setdefault", "reverse",
    "appendleft", "popleft",
}
HEAPQ = {"heappush", "heappop", "heapify", "heappushpop", "heapreplace"}


def _mutated(nodes):
    """Local names whose object (not binding) the loop body may change."""
    out = []

    def put(n):
        if isinstance(n, ast.Name) and n.id not in out:
            out.append(n.id)

    for b in nodes:
        for n in ast.walk(b):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    put(n.func.value)
                name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
                if name in HEAPQ and n.args:
                    put(n.args[0])
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                put(n.value)
    return out


def _locals_of(fn):
    a = fn.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    names += [x.arg for x in (a.vararg, a.kwarg) if x is not None]
    return set(names) | set(_assigned(fn.body))


class Continue2Close(ast.NodeTransformer):
    def __init__(self, name):
        self.name = name

    def visit_Continue(self, n):
        return ast.parse(f"{self.name}.close(locals())").body[0]

    def visit_While(self, n):
        return n

    visit_For = visit_While

    def visit_FunctionDef(self, n):
        return n


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname.replace("harmonic_inference.", "")
        self.stack = []
        self.counts = {}
        self.uid = 0
        self.local = []

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.local.append(_locals_of(n))
        n.body = [self.visit(b) for b in n.body]
        n.body = [y for b in n.body for y in (b if isinstance(b, list) else [b])]
        self.local.pop()
        self.stack.pop()
        return n

    def _key(self):
        f = ".".join(self.stack)
        i = self.counts.get(f, 0)
        self.counts[f] = i + 1
        return f"{self.mod}.{f}#{i}"

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice):
            if isinstance(n.slice, ast.Constant) or any(
                isinstance(c, (ast.Slice, ast.Starred)) for c in ast.walk(n.slice)
            ):
                return n
            return ast.Call(ast.Name("_vc_getitem", ast.Load()), [n.value, n.slice], [])
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in CALLS and not n.keywords:
            n.func = ast.Name(CALLS[n.func.id], ast.Load())
        return n

    def _comp(self, n):
        """[e for t in it] without conditions: may run on sequences of any length (pyvc.seq.comp)."""
        import copy

        self.generic_visit(n)
        if len(n.generators) != 1 or not self.stack:
            return n
        g = n.generators[0]
        if g.ifs or g.is_async or any(
            isinstance(c, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for c in ast.walk(n)
        ):
            return n
        if any(isinstance(c, ast.Name) and c.id == "super" for c in ast.walk(n)):
            return n
        args = lambda a: ast.arguments(posonlyargs=[], args=[ast.arg(a)], kwonlyargs=[], kw_defaults=[], defaults=[])  # noqa: E731
        one = ast.ListComp(
            copy.deepcopy(n.elt),
            [ast.comprehension(copy.deepcopy(g.target), ast.Tuple([ast.Name("_vc_e", ast.Load())], ast.Load()), [], 0)],
        )
        elem = ast.Lambda(args("_vc_e"), ast.Subscript(one, ast.Constant(0), ast.Load()))
        it = g.iter
        g.iter = ast.Name("_vc_it", ast.Load())
        return ast.Call(ast.Name("_vc_comp", ast.Load()), [it, elem, ast.Lambda(args("_vc_it"), n)], [])

    visit_ListComp = _comp
    visit_GeneratorExp = _comp

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and isinstance(n.left, ast.List) and len(n.left.elts) == 1:
            return ast.Call(ast.Name("_vc_times", ast.Load()), [n.left, n.right], [])
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arg(self, n):
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name("_vc_in", ast.Load()), [n.left, n.comparators[0]], [])
            if isinstance(n.ops[0], ast.NotIn):
                return ast.UnaryOp(ast.Not(), c)
            return c
        return n

    def _loop(self, n, isfor):
        if not self.stack:
            self.generic_visit(n)
            return n
        key = self._key()
        mutated = [m for m in _mutated(n.body) if self.local and m in self.local[-1]]
        self.generic_visit(n)
        import copy

        self.uid += 1
        nm = f"_vc_lp{self.uid}"
        body = copy.deepcopy(n.body)
        body = [Continue2Close(nm).visit(b) for b in body]
        names = _assigned(n.body + ([] if isfor else [ast.Expr(n.test)]))
        if isfor:
            names = _assigned([n.target]) + [m for m in names if m not in _assigned([n.target])]
        names = names + [m for m in mutated if m not in names]
        close = ast.parse(f"{nm}.close(locals())").body
        cut = []
        if isfor:
            cut.append(
                ast.Assign(
                    [ast.Name(nm, ast.Store())],
                    ast.Call(
                        ast.Name("_vc_loop", ast.Load()),
                        [
                            ast.Constant(key),
                            ast.Call(ast.Name("locals", ast.Load()), [], []),
                            copy.deepcopy(n.iter),
                            ast.Constant(True),
                        ],
                        [],
                    ),
                )
            )
        else:
            cut += ast.parse(f"{nm} = _vc_loop({key!r}, locals())").body
        if names:
            tgt = ", ".join(names) + ("," if len(names) == 1 else "")
            cut += ast.parse(f"{tgt} = {nm}.havoc({tuple(names)!r}, locals())").body
        else:
            cut += ast.parse(f"{nm}.havoc((), locals())").body
        if isfor:
            item = ast.Assign(
                [copy.deepcopy(n.target)], ast.parse(f"{nm}.item()", mode="eval").body
            )
            cut.append(
                ast.While(
                    ast.parse(f"{nm}.more()", mode="eval").body,
                    [item] + body + close,
                    copy.deepcopy(n.orelse),
                )
            )
        else:
            cut.append(
                ast.While(copy.deepcopy(n.test), body + close, copy.deepcopy(n.orelse))
            )
            tick = ast.Call(ast.Name("_vc_tick", ast.Load()), [ast.Constant(key)], [])
            n.body = [ast.Expr(tick)] + n.body
        test = ast.Call(ast.Name("_vc_cut", ast.Load()), [ast.Constant(key)], [])
        return ast.If(test, cut, [n])

    def visit_While(self, n):
        return self._loop(n, False)

    def visit_For(self, n):
        return self._loop(n, True)


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, name):
        src = open(self.path, encoding="utf-8").read()
        tree = ast.parse(src, self.path)
        mod = name
        if self.is_package(name):
            return compile(tree, self.path, "exec")
        tree = Instrument(mod).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, self.path, "exec")

    def exec_module(self, module):
        module.__dict__.update(HELPERS)
        super().exec_module(module)
        d = module.__dict__
        for k, v in SHADOW.items():
            if k not in d:
                d[k] = v
        if d.get("Fraction") is Fraction:
            d["Fraction"] = VcFraction
        if d.get("np") is np:
            d["np"] = NP
        if "pd" in d and getattr(d["pd"], "__name__", "") == "pandas":
            d["pd"] = _PdShim()


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] not in ("harmonic_inference", "annotate", "test", "write_to_score"):
            return None
        rel = name.replace(".", "/")
        pkg = os.path.join(REPO, rel)
        if os.path.isdir(pkg) and os.path.exists(os.path.join(pkg, "__init__.py")):
            f = os.path.join(pkg, "__init__.py")
            return importlib.util.spec_from_file_location(
                name, f, loader=_Loader(name, f), submodule_search_locations=[pkg]
            )
        f = pkg + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f))
        return None


def install(mode):
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != os.path.realpath(REPO)]
    sys.path.insert(0, REPO)
    sys.meta_path.append(_StubFinder())
    if mode == "sym":
        sys.meta_path.insert(0, _Finder())


def int_constants(qualnames):
    """Integer literals of the functions under contract (seed values for the concrete twin)."""
    out = set()
    for q in qualnames:
        try:
            modname, path = q.split(":")
            f = os.path.join(REPO, modname.replace(".", "/") + ".py")
            tree = ast.parse(open(f).read())
            node = tree
            for part in path.split("."):
                node = next(
                    c
                    for c in ast.walk(node)
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and c.name == part
                )
            for c in ast.walk(node):
                if isinstance(c, ast.Constant) and type(c.value) is int and abs(c.value) < 100000:
                    out.add(c.value)
        except Exception:
            continue
    return sorted(out)
