"""mutate.py PROP [-n PER_FUNCTION] [-s SEED] [-f SUBSTRING] [-j JOBS]: operator mutants of the functions a property has under
contract, each in a scratch copy; prints the ones its check does not notice."""
import argparse, ast, io, json, os, random, shutil, subprocess, sys, contextlib
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
REPO = os.environ.get("MUT_BASE", "/repo")
PY = "/opt/venv/bin/python"


def mutants(src, qual):
    """(line, description, new source) of every mutant of one function or class"""
    tree = ast.parse(src)
    node = tree
    for part in qual.split("."):
        node = next((n for n in node.body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part), None)
        if node is None:
            return []
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    out = []

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def put(n, text, what):
        i, j = span(n)
        out.append((n.lineno, what, (b[:i] + text.encode() + b[j:]).decode()))

    attrs = sorted({n.attr for n in ast.walk(node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)
                    and isinstance(n.value, ast.Name)})
    skip = set()
    for n in ast.walk(node):
        if isinstance(n, (ast.Raise, ast.Assert, ast.JoinedStr)):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, ast.arg) or isinstance(n, ast.AnnAssign):
            a = getattr(n, "annotation", None)
            if a is not None:
                skip.update(map(id, ast.walk(a)))
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            skip.update(map(id, ast.walk(n.returns)))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and getattr(n.func.value, "id", "") == "logging":
            skip.update(map(id, ast.walk(n)))
    CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"],
           ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
    BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+"], ast.FloorDiv: ["*"], ast.Mod: ["//"], ast.Div: ["*"]}
    un = ast.unparse
    for n in ast.walk(node):
        if id(n) in skip or n is node:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                put(n, f"({un(n.left)} {o} {un(n.comparators[0])})", f"{un(n)}  =>  {o}")
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                put(n, f"({un(n.left)} {o} {un(n.right)})", f"{un(n)}  =>  {o}")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + o.join(f"({un(v)})" for v in n.values) + ")", f"{un(n)}  =>  {o}")
            for k in range(len(n.values)):
                o2 = " and " if isinstance(n.op, ast.And) else " or "
                put(n, "(" + o2.join(f"({un(v)})" for i, v in enumerate(n.values) if i != k) + ")", f"{un(n)}  =>  without {un(n.values[k])}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, f"({un(n.operand)})", f"{un(n)}  =>  no not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            put(n, f"({un(n.operand)})", f"{un(n)}  =>  no minus")
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, type(None), bytes, type(...))):
            if isinstance(n.value, bool):
                put(n, str(not n.value), f"line {n.lineno}: {n.value} => {not n.value}")
            else:
                put(n, str(n.value + 1), f"{lines[n.lineno-1].strip()}: {n.value} => {n.value + 1}")
                put(n, f"({n.value - 1})", f"{lines[n.lineno-1].strip()}: {n.value} => {n.value - 1}")
        elif isinstance(n, (ast.AugAssign, ast.Continue, ast.Break, ast.Delete)) or (
            isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant)
        ):
            put(n, "pass", f"{un(n)[:100]}  =>  pass")
            if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)):
                o = "-=" if isinstance(n.op, ast.Add) else "+="
                put(n, f"{un(n.target)} {o} {un(n.value)}", f"{un(n)[:100]}  =>  {o}")
        elif isinstance(n, ast.Call):
            for k, kw in enumerate(n.keywords):
                if kw.arg:
                    m = ast.Call(n.func, n.args, [q for i, q in enumerate(n.keywords) if i != k])
                    put(n, un(m), f"{un(n)[:100]}  =>  without {kw.arg}")
            if len(n.args) >= 2 and un(n.args[0]) != un(n.args[1]) and not isinstance(n.args[0], ast.Starred) and not isinstance(n.args[1], ast.Starred):
                m = ast.Call(n.func, [n.args[1], n.args[0]] + n.args[2:], n.keywords)
                put(n, un(m), f"{un(n)[:100]}  =>  arguments swapped")
        elif isinstance(n, ast.IfExp):
            put(n, f"({un(n.body)})", f"{un(n)[:100]}  =>  always first")
            put(n, f"({un(n.orelse)})", f"{un(n)[:100]}  =>  always second")
        elif isinstance(n, ast.If):
            put(n.test, f"({un(n.test)}) and False", f"if {un(n.test)[:100]}  =>  never")
            put(n.test, f"({un(n.test)}) or True", f"if {un(n.test)[:100]}  =>  always")
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and len(attrs) > 1:
            near = [a for a in attrs if a != n.attr and (a.split("_")[-1] == n.attr.split("_")[-1] or a.split("_")[0] == n.attr.split("_")[0])]
            for a in near[:3]:
                put(n, f"{n.value.id}.{a}", f"{lines[n.lineno-1].strip()}: .{n.attr} => .{a}")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for part in ("lower", "upper"):
                v = getattr(n.slice, part)
                if v is not None:
                    put(v, f"({un(v)}) + 1", f"{un(n)[:80]}  =>  {part} + 1")
    return out


def one(args):
    prop, harnesses, file, qual, k, line, what, src, slot = args
    d = f"/tmp/mut_{prop}_{os.getpid()}_{k}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a"] + [os.path.join(REPO, x) for x in os.listdir(REPO) if x not in (".git",)] + [d], check=True)
    open(os.path.join(d, file), "w").write(src)
    ev = d + "_ev"
    os.makedirs(ev, exist_ok=True)
    try:
        code = f'''
import sys, os
sys.path.insert(0, {ROOT + "/pyvc"!r})
import main
main.EVID = {ev!r}
w = main.worker({{"mode": "conc", "property": {prop!r}, "names": {harnesses!r}, "seed": 1, "factor": 1, "workers": 3}})()
r = w.get("results")
if r is None or any(v.get("failure") for v in r.values()):
    print("KILLED sampling"); sys.exit()
sys.stdout = open(os.devnull, "w")
c = main.check({prop!r}, "quick", 1)
sys.stdout = sys.__stdout__
import json
dg = json.load(open({ev!r} + "/{prop}.json"))["coverage"]["degraded"]
print("KILLED proof" if c == 1 else "SURVIVED" if not dg else "SURVIVED degraded " + str(dg)[:200])
'''
        r = subprocess.run(["python3", "-c", code], env=dict(os.environ, PYVC_REPO=d), capture_output=True, text=True)
        return what, line, qual, (r.stdout.strip() or r.stderr[-300:]), file
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(ev, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("-n", type=int, default=8)
    ap.add_argument("-s", default="1")
    ap.add_argument("-f", default="")
    ap.add_argument("-j", type=int, default=3)
    a = ap.parse_args()
    sys.path.insert(0, ROOT + "/pyvc")
    import main as M
    meta = M.worker({"mode": "meta", "property": a.prop})()["results"]["meta"]
    fn = {}
    for name, kind, bound, functions, s in meta:
        for f in functions:
            fn.setdefault(f, []).append(name)
    work = []
    k = 0
    for f, hs in sorted(fn.items()):
        if a.f not in f:
            continue
        mod, qual = f.split(":")
        file = mod.replace(".", "/") + ".py"
        ms = mutants(open(os.path.join(REPO, file)).read(), qual)
        random.Random(a.s + f).shuffle(ms)
        for line, what, src in ms[: a.n]:
            try:
                ast.parse(src)
            except SyntaxError:
                continue
            work.append((a.prop, hs, file, qual, k, line, what, src, 0))
            k += 1
    killed = [0, 0]
    with ThreadPoolExecutor(a.j) as ex:
        for what, line, qual, res, file in ex.map(one, work):
            if res.startswith("KILLED"):
                killed["proof" in res] += 1
            else:
                print(f"{a.prop} {file}:{line} {qual}: {what}   [{res}]", flush=True)
    print(f"{a.prop}: {len(work)} mutants, killed {killed[0]} by sampling, {killed[1]} by proof", flush=True)


main()
