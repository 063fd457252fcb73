"""Child process: runs contract harnesses of one property, either symbolically on the instrumented
source ('sym') or on the untouched code ('conc').  Forks one process per harness."""
import importlib.util
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.setrecursionlimit(5000)

import logging  # noqa: E402

logging.disable(logging.CRITICAL)
import warnings  # noqa: E402

warnings.simplefilter("ignore")

from pyvc import engine, instrument  # noqa: E402


def load(prop):
    path = os.path.join(ROOT, "contracts", prop.lower() + ".py")
    spec = importlib.util.spec_from_file_location("contracts_" + prop, path)
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.join(ROOT, "contracts"))
    spec.loader.exec_module(m)
    return m


def run_sym(h, unroll, second, budget):
    # cross-check of the instrumentation: ordinary values through the instrumented source
    cross = run_conc(h, 12, "cross", 5) if unroll is None else {}
    instrument.NP.object_arrays = h.np_object
    x = engine.SymCtx(h.name, budget_s=budget, second=second)
    x.mode_unroll = unroll
    x.run(h.fn)
    ob = x.obl
    return {
        "name": h.name,
        "kind": h.kind,
        "bound": h.bound,
        "functions": h.functions,
        "obligations": {k: v for k, v in ob.items()},
        "paths": x.paths,
        "paths_done": x.paths_done,
        "queries": x.solver.queries,
        "solver_s": round(x.solver.time, 3),
        "cvc5_s": round(x.cvc5_time, 3),
        "cvc5_agree": x.second_agree,
        "failures": [
            {"label": f.label, "inputs": f.inputs, "detail": str(f.detail)[:1500], "kind": f.kind}
            for f in x.failures
        ],
        "unsupported": x.unsupported,
        "undecided": x.undecided,
        "assumed": sorted(x.assumed),
        "cut_loops": sorted(x.cut_loops),
        "wall": round(x.wall, 2),
        "cross": {"evaluations": cross.get("evaluations"), "failure": cross.get("failure")},
    }


class Hang(BaseException):
    pass


def hang(*_):
    raise Hang()


HANG_S = 90  # an evaluation takes milliseconds


def one_concrete(h, rng, given, consts, limit=None):
    x = engine.ConCtx(rng, given, consts)
    try:
        if limit:
            signal.signal(signal.SIGALRM, hang)
            signal.alarm(limit)
        h.fn(x)
        return "ok", None, x
    except Hang:
        return "fail", f"the code comes to an end (no answer within {limit} s)", x
    except engine.Discard:
        return "discard", None, x
    except engine.CheckFailed as e:
        return "fail", e.label, x
    except Exception as e:  # noqa: BLE001
        return "fail", f"contract evaluates ({type(e).__name__}: {e})", x
    finally:
        if limit:
            signal.alarm(0)


def run_conc(h, n, seed, seconds, limit=None):
    consts = instrument.int_constants(h.functions)
    t0 = time.time()
    done = disc = i = 0
    labels = {}
    while done < n and time.time() - t0 < seconds and disc < 50 * n:
        rng = random.Random(f"{seed}/{h.name}/{i}")
        i += 1
        st, label, x = one_concrete(h, rng, {}, consts, limit)
        if st == "discard":
            disc += 1
            continue
        done += 1
        for c in x.checked:
            labels[c] = labels.get(c, 0) + 1
        if st == "fail":
            return {
                "name": h.name,
                "evaluations": done,
                "discarded": disc,
                "failure": {"label": label, "inputs": x.inputs, "notes": repr(x.notes)[:3000]},
                "labels": labels,
            }
    return {
        "name": h.name,
        "evaluations": done,
        "discarded": disc,
        "failure": None,
        "labels": labels,
        "wall": round(time.time() - t0, 2),
    }


def forked(jobs, limit, workers):
    """jobs: list of (key, thunk). Runs each in a forked child, returns {key: result}."""
    out, running = {}, {}
    pending = list(jobs)
    while pending or running:
        while pending and len(running) < workers:
            key, fn = pending.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    signal.alarm(int(limit(key)))
                    res = fn()
                except BaseException as e:  # noqa: BLE001
                    res = {"name": key, "crash": f"{type(e).__name__}: {e}\n{traceback.format_exc()}"}
                with os.fdopen(w, "wb") as f:
                    f.write(json.dumps(res, default=str).encode())
                os._exit(0)
            os.close(w)
            running[key] = (pid, r, b"", time.time())
        import select

        fds = {r: key for key, (pid, r, b, t) in running.items()}
        rd, _, _ = select.select(list(fds), [], [], 1.0)
        for r in rd:
            key = fds[r]
            pid, r, buf, t = running[key]
            chunk = os.read(r, 1 << 16)
            if chunk:
                running[key] = (pid, r, buf + chunk, t)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del running[key]
            try:
                out[key] = json.loads(buf.decode())
            except ValueError:
                out[key] = {"name": key, "crash": "worker died (time or memory limit)"}
    return out


def emit(req, obj):
    with open(req["out"], "w") as f:
        json.dump(obj, f, default=str)


def canary():
    """The engine must refute a false contract and accept a true one, on every run."""
    x = engine.SymCtx("canary", budget_s=20)

    def good(x):
        p = x.int("p")
        q = x.choice("q", [1, 2])
        x.check("true", x.or_((p + q) % 12 == (p % 12 + q) % 12))

    x.run(good)
    y = engine.SymCtx("canary2", budget_s=20)

    def bad(x):
        p = x.int("p")
        if p > 1000:
            x.check("false", p != 123456)

    y.run(bad)
    return bool(
        not x.failures
        and not x.unsupported
        and x.obl["true"][1] == 2
        and len(y.failures) == 1
        and y.failures[0].inputs == {"p": 123456}
    )


def main():
    req = json.loads(sys.stdin.read())
    mode = req["mode"]
    instrument.install("sym" if mode == "sym" else "real")
    try:
        m = load(req["property"])
    except BaseException as e:  # noqa: BLE001
        emit(req, {"load_error": f"{type(e).__name__}: {e}\n{traceback.format_exc()}"})
        return
    hs = {h.name: h for h in m.HARNESSES}
    names = req.get("names") or list(hs)
    workers = req.get("workers", 8)
    if mode == "sym":
        jobs = []
        for n in names:
            h = hs[n]
            if not h.symbolic:
                continue
            unroll = req.get("unroll", {}).get(n)
            bud = h.budget * req.get("budget_factor", 1.0)
            if unroll is not None:
                bud = min(bud, 60)
            jobs.append((n, lambda h=h, u=unroll, b=bud: run_sym(h, u, req.get("second"), b)))
        res = forked(jobs, lambda k: hs[k].budget * req.get("budget_factor", 1.0) + 60, workers)
    elif mode == "conc":
        f = req.get("factor", 1)
        jobs = [
            (n, lambda h=hs[n]: run_conc(h, int(h.samples * f), req["seed"], h.max_seconds * f ** 0.5, HANG_S))
            for n in names
        ]
        res = forked(jobs, lambda k: 3 * hs[k].max_seconds * f + 120, workers)
    elif mode == "replay":
        res = {}
        for i, r in enumerate(req["items"]):
            h = hs[r["harness"]]
            consts = instrument.int_constants(h.functions)

            def go(h=h, r=r, consts=consts):
                # unknown/unconstrained inputs: try a few completions
                for k in range(8):
                    st, label, x = one_concrete(h, random.Random(k), r["inputs"], consts, HANG_S)
                    if st == "fail":
                        return {"st": st, "label": label, "inputs": x.inputs, "notes": repr(x.notes)[:3000]}
                return {"st": st, "label": label, "inputs": x.inputs}

            res.update(forked([(str(i), go)], lambda k: 120, 1))
    else:
        res = {"meta": [(h.name, h.kind, h.bound, h.functions, h.symbolic) for h in m.HARNESSES]}
    emit(req, {"results": res, "canary": canary() if mode == "sym" else None})


if __name__ == "__main__":
    main()
