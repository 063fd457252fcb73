"""Terms, SMT-LIB printing and solver processes (z3 as the deciding back end, cvc5 as the second)."""
import os
import select
import subprocess
import time
from fractions import Fraction

INT, REAL, BOOL = "Int", "Real", "Bool"


class SolverError(Exception):
    pass


class T:
    """An SMT term.  `val` is the Python value when the term is a literal."""

    __slots__ = ("op", "args", "sort", "val", "size", "_txt", "_h")

    def __init__(self, op, args, sort, val=None):
        self.op, self.args, self.sort, self.val = op, args, sort, val
        self.size = 1 + sum(a.size for a in args)
        self._txt = None
        self._h = None

    def key(self):
        if self._h is None:
            self._h = (self.op, self.sort, self.val, tuple(id(a) for a in self.args))
        return self._h

    def __repr__(self):
        return show(self)


def show(t):
    if t.op == "lit":
        return str(t.val)
    if not t.args:
        return t.op
    return "(" + t.op + " " + " ".join(show(a) for a in t.args) + ")"


def lit(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return T("lit", (), INT, int(v))
    if isinstance(v, Fraction):
        return T("lit", (), REAL, v)
    raise TypeError(type(v))


TRUE = T("lit", (), BOOL, True)
FALSE = T("lit", (), BOOL, False)


def is_lit(t):
    return t.op == "lit"


def var(name, sort):
    return T(name, (), sort)


def same(a, b):
    """Structural identity (cheap, bounded)."""
    if a is b:
        return True
    if a.op != b.op or a.sort != b.sort or a.size != b.size or len(a.args) != len(b.args):
        return False
    if a.op == "lit":
        return a.val == b.val
    if a.size > 400:
        return False
    return all(same(x, y) for x, y in zip(a.args, b.args))


def to_real(t):
    if t.sort == REAL:
        return t
    if t.sort == BOOL:
        t = ite(t, lit(1), lit(0))
    if is_lit(t):
        return lit(Fraction(t.val))
    return T("to_real", (t,), REAL)


def floor(t):
    if t.sort == INT:
        return t
    if is_lit(t):
        return lit(t.val.numerator // t.val.denominator)
    if t.op == "to_real":
        return t.args[0]
    return T("to_int", (t,), INT)


def unify(a, b):
    if a.sort == b.sort:
        return a, b
    if REAL in (a.sort, b.sort):
        return to_real(a), to_real(b)
    # bool / int
    conv = lambda t: ite(t, lit(1), lit(0)) if t.sort == BOOL else t  # noqa: E731
    return conv(a), conv(b)


def add(a, b):
    a, b = unify(a, b)
    if a.sort == BOOL:
        a, b = ite(a, lit(1), lit(0)), ite(b, lit(1), lit(0))
    if is_lit(a) and is_lit(b):
        return lit(a.val + b.val)
    if is_lit(a) and a.val == 0:
        return b
    if is_lit(b) and b.val == 0:
        return a
    if is_lit(a):
        a, b = b, a
    if is_lit(b) and a.op == "+" and is_lit(a.args[1]):
        return add(a.args[0], lit(a.args[1].val + b.val))
    return T("+", (a, b), a.sort)


def neg(a):
    if a.sort == BOOL:
        a = ite(a, lit(1), lit(0))
    return mul(lit(-1) if a.sort == INT else lit(Fraction(-1)), a)


def sub(a, b):
    a, b = unify(a, b)
    if same(a, b):
        return lit(0) if a.sort == INT else lit(Fraction(0))
    return add(a, neg(b))


def mul(a, b):
    a, b = unify(a, b)
    if a.sort == BOOL:
        a, b = ite(a, lit(1), lit(0)), ite(b, lit(1), lit(0))
    if is_lit(a) and is_lit(b):
        return lit(a.val * b.val)
    if is_lit(b):
        a, b = b, a
    if is_lit(a):
        if a.val == 0:
            return a
        if a.val == 1:
            return b
        if b.op == "*" and is_lit(b.args[0]):
            return mul(lit(a.val * b.args[0].val), b.args[1])
        if b.op == "+":
            return add(mul(a, b.args[0]), mul(a, b.args[1]))
    return T("*", (a, b), a.sort)


def rdiv(a, b):
    a, b = to_real(a), to_real(b)
    if is_lit(b) and b.val != 0:
        return mul(lit(Fraction(1) / b.val), a)
    if same(a, b):
        return lit(Fraction(1))
    return T("/", (a, b), REAL)


def idiv(a, b):
    if is_lit(a) and is_lit(b):
        return lit(a.val // b.val)
    return T("div", (a, b), INT)


def imod(a, b):
    if is_lit(a) and is_lit(b):
        return lit(a.val % b.val)
    if is_lit(b) and a.op == "mod" and is_lit(a.args[1]) and a.args[1].val == b.val:
        return a
    return T("mod", (a, b), INT)


def eq(a, b):
    a, b = unify(a, b)
    if is_lit(a) and is_lit(b):
        return lit(bool(a.val == b.val))
    if same(a, b):
        return TRUE
    if a.sort == BOOL:
        if is_lit(a):
            return b if a.val else not_(b)
        if is_lit(b):
            return a if b.val else not_(a)
    return T("=", (a, b), BOOL)


def le(a, b):
    a, b = unify(a, b)
    if is_lit(a) and is_lit(b):
        return lit(bool(a.val <= b.val))
    if same(a, b):
        return TRUE
    return T("<=", (a, b), BOOL)


def lt(a, b):
    a, b = unify(a, b)
    if is_lit(a) and is_lit(b):
        return lit(bool(a.val < b.val))
    if same(a, b):
        return FALSE
    return T("<", (a, b), BOOL)


def not_(a):
    if is_lit(a):
        return FALSE if a.val else TRUE
    if a.op == "not":
        return a.args[0]
    return T("not", (a,), BOOL)


def and_(*xs):
    out = []
    for x in xs:
        if is_lit(x):
            if not x.val:
                return FALSE
            continue
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T("and", tuple(out), BOOL)


def or_(*xs):
    out = []
    for x in xs:
        if is_lit(x):
            if x.val:
                return TRUE
            continue
        out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return T("or", tuple(out), BOOL)


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if is_lit(c):
        return a if c.val else b
    a, b = unify(a, b) if a.sort != b.sort else (a, b)
    if same(a, b):
        return a
    if a.sort == BOOL and is_lit(a) and is_lit(b):
        return c if a.val else not_(c)
    return T("ite", (c, a, b), a.sort)


def app(fname, args, sort):
    return T("@" + fname, tuple(args), sort)


def lit_txt(t):
    if t.sort == BOOL:
        return "true" if t.val else "false"
    if t.sort == INT:
        return str(t.val) if t.val >= 0 else f"(- {-t.val})"
    n, d = t.val.numerator, t.val.denominator
    s = f"{abs(n)}.0" if d == 1 else f"(/ {abs(n)}.0 {d}.0)"
    return s if n >= 0 else f"(- {s})"


class Printer:
    """Prints terms, declaring free symbols (and naming big shared terms) as it goes."""

    def __init__(self, emit):
        self.emit = emit
        self.declared = set()
        self.named = {}
        self.keep = []

    def txt(self, t):
        if t.op == "lit":
            return lit_txt(t)
        if id(t) in self.named:
            return self.named[id(t)]
        if not t.args:
            if t.op not in self.declared:
                self.declared.add(t.op)
                self.emit(f"(declare-const {t.op} {t.sort})")
            return t.op
        parts = [self.txt(a) for a in t.args]
        op = t.op
        if op.startswith("@"):
            op = op[1:]
            if op not in self.declared:
                self.declared.add(op)
                sorts = " ".join(a.sort for a in t.args)
                self.emit(f"(declare-fun {op} ({sorts}) {t.sort})")
        s = "(" + op + " " + " ".join(parts) + ")"
        if len(s) > 200:
            name = f"d!{len(self.named)}"
            self.emit(f"(define-fun {name} () {t.sort} {s})")
            self.named[id(t)] = name
            self.keep.append(t)  # keep the id alive
            return name
        return s


def parse_sexpr(s):
    toks = s.replace("(", " ( ").replace(")", " ) ").split()
    pos = 0

    def rec():
        nonlocal pos
        tok = toks[pos]
        pos += 1
        if tok == "(":
            out = []
            while toks[pos] != ")":
                out.append(rec())
            pos += 1
            return out
        return tok

    return rec()


def sexpr_val(e):
    if isinstance(e, list):
        if e[0] == "-" and len(e) == 2:
            return -sexpr_val(e[1])
        if e[0] == "/":
            return Fraction(sexpr_val(e[1])) / Fraction(sexpr_val(e[2]))
        if e[0] == "to_real":
            return Fraction(sexpr_val(e[1]))
        raise SolverError(f"value {e}")
    if e == "true":
        return True
    if e == "false":
        return False
    if "." in e:
        return Fraction(e.rstrip("?"))
    return int(e)


class Solver:
    """One incremental solver process."""

    def __init__(self, cmd=None, timeout_ms=10000):
        self.cmd = cmd or ["z3-new", "-in", "-smt2"]
        self.timeout_ms = timeout_ms
        self.time = 0.0
        self.queries = 0
        self.log = []  # full command log of the current stack, for dumping VCs
        self.stack = [[]]
        self.globals = []
        self._start()

    def _start(self):
        self.p = subprocess.Popen(
            self.cmd,
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            bufsize=0,
        )
        self.buf = b""
        self.out = []
        self.printer = Printer(self._emit_global)
        self._send("(set-option :global-declarations true)")
        self._send("(set-option :produce-models true)")
        if "z3" in self.cmd[0]:
            self._send(f"(set-option :timeout {self.timeout_ms})")
        else:
            self._send("(set-logic ALL)")

    def _emit_global(self, s):
        self.globals.append(s)
        self._send(s)

    def _send(self, s):
        self.out.append(s)

    def _flush(self):
        if self.out:
            data = ("\n".join(self.out) + "\n").encode()
            self.out = []
            self.p.stdin.write(data)

    def _readline(self, deadline):
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], max(0.0, deadline - time.time()))
            if not r:
                raise TimeoutError
            chunk = os.read(self.p.stdout.fileno(), 65536)
            if not chunk:
                raise SolverError("solver died: " + self.buf.decode(errors="replace"))
            self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        return line.decode().strip()

    def _read_balanced(self, deadline):
        s = self._readline(deadline)
        while s.count("(") != s.count(")"):
            s += " " + self._readline(deadline)
        return s

    def push(self):
        self.stack.append([])
        self._send("(push 1)")

    def pop(self, n=1):
        for _ in range(n):
            self.stack.pop()
        self._send(f"(pop {n})")

    def add(self, t):
        if is_lit(t) and t.val:
            return
        s = f"(assert {self.printer.txt(t)})"
        self.stack[-1].append(s)
        self._send(s)

    def check(self):
        t0 = time.time()
        self.queries += 1
        self._send("(check-sat)")
        self._flush()
        try:
            line = self._readline(t0 + self.timeout_ms / 1000.0 + 5)
            if line.startswith("(error"):
                raise SolverError(line)
        except TimeoutError:
            # restart the process with the same stack
            self.p.kill()
            self.p.wait()
            stack, globs = self.stack, self.globals
            declared, named, keep = self.printer.declared, self.printer.named, self.printer.keep
            self.out = []
            self._start()
            self.printer.declared, self.printer.named, self.printer.keep = declared, named, keep
            for g in globs:
                self._send(g)
            for i, lvl in enumerate(stack):
                if i:
                    self._send("(push 1)")
                for s in lvl:
                    self._send(s)
            line = "unknown"
        self.time += time.time() - t0
        return line

    def values(self, terms):
        """Model values of the given terms (after a sat answer)."""
        if not terms:
            return []
        names = [self.printer.txt(t) for t in terms]
        self._send("(get-value (" + " ".join(names) + "))")
        self._flush()
        s = self._read_balanced(time.time() + 30)
        if s.startswith("(error"):
            raise SolverError(s)
        e = parse_sexpr(s)
        out = []
        for item in e:
            try:
                out.append(sexpr_val(item[1]))
            except Exception:
                out.append(None)
        return out

    def dump(self, extra):
        """The current problem plus the given assertion, as an SMT-LIB script."""
        txt = self.printer.txt(extra)
        lines = ["(set-logic ALL)"] + list(self.globals)
        for lvl in self.stack:
            lines += lvl
        lines.append(f"(assert {txt})")
        lines.append("(check-sat)")
        return "\n".join(lines) + "\n"

    def close(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


def run_cvc5(script, timeout_s=20):
    t0 = time.time()
    try:
        r = subprocess.run(
            ["cvc5", "--lang=smt2", f"--tlimit={int(timeout_s * 1000)}", "-"],
            input=script.encode(),
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            timeout=timeout_s + 10,
        )
        out = r.stdout.decode().strip().splitlines()
        ans = next((ln for ln in out if ln in ("sat", "unsat", "unknown")), "unknown")
    except subprocess.TimeoutExpired:
        ans = "unknown"
    return ans, time.time() - t0
