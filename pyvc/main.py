"""Orchestrates one property check.

  main.py check <ID> [--tier quick|thorough]     decide the property on /repo's current tree
  main.py replay <replay.json>                   re-run a recorded violation on the real code
"""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
EVID = os.path.join(ROOT, "evidence")


DEADLINE = time.time() + 840


def worker(req):
    fd, out = tempfile.mkstemp(prefix="pyvc_")
    os.close(fd)
    req = dict(req, out=out)
    env = dict(os.environ)
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
    env.pop("PYTHONPATH", None)
    p = subprocess.Popen(
        [PY, "-B", os.path.join(HERE, "worker.py")],
        stdin=subprocess.PIPE,
        stdout=subprocess.DEVNULL,
        stderr=subprocess.PIPE,
        env=env,
        cwd=ROOT,
        start_new_session=True,
    )
    p.stdin.write(json.dumps(req).encode())
    p.stdin.close()
    p.stdin = None

    def wait(until=None):
        try:
            err = p.communicate(timeout=max(5, (until or DEADLINE) - time.time()))[1].decode(errors="replace")
            with open(out) as f:
                txt = f.read()
            return json.loads(txt) if txt else {"worker_error": err[-4000:]}
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            return {"worker_error": "time limit", "late": True}
        finally:
            try:
                os.unlink(out)
            except OSError:
                pass

    return wait


def load_known():
    path = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def repo_head():
    r = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True)
    return r.stdout.strip()


def check(prop, tier, seed):
    t0 = time.time()
    thorough = tier == "thorough"
    global DEADLINE
    DEADLINE = t0 + (36000 if thorough else 840)
    jobs = os.cpu_count() or 4
    w_sym = worker(
        {
            "mode": "sym",
            "property": prop,
            "second": thorough,
            "budget_factor": 4.0 if thorough else 1.0,
            "workers": max(2, jobs - 2),
        }
    )
    w_con = worker(
        {
            "mode": "conc",
            "property": prop,
            "seed": seed,
            "factor": 10 if thorough else 1,
            "workers": max(2, jobs // 2),
        }
    )
    first = None if thorough else t0 + 540
    rs, rc = w_sym(first), w_con(first)
    meta = worker({"mode": "meta", "property": prop})()
    violations, report, bounded_notes = [], {}, []
    con = rc.get("results")
    symr = rs.get("results")
    if con is None and rc.get("late"):
        bounded_notes.append("sampling did not end in time")
        con = {}
    if con is None:
        why = rc.get("load_error") or rc.get("worker_error") or "?"
        violations.append(
            {"harness": "*", "label": "the code under contract can be loaded", "inputs": None, "detail": why[-3000:]}
        )
        con = {}
    if symr is None:
        bounded_notes.append(
            "verifier could not load the tree; contracts only evaluated on sampled inputs: "
            + str(rs.get("load_error") or rs.get("worker_error"))[-800:]
        )
        symr = {}
    elif not rs.get("canary"):
        print("checker error: engine canary failed", file=sys.stderr)
        return 3

    hmeta = {}
    for name, kind, bound, functions, s in (meta.get("results") or {}).get("meta", []):
        hmeta[name] = (kind, bound, functions, s)

    # 1. contracts that failed on the real code directly
    for name, r in con.items():
        if r.get("crash"):
            print(f"note: sampling of {name} gave no result: {r['crash'][-300:]}")
            bounded_notes.append(f"sampling of {name} gave no result: {r['crash'][-300:]}")
        if r.get("failure"):
            violations.append(dict(r["failure"], harness=name, how="contract evaluated on the real code"))

    # 2. obligations
    todo_unroll, todo_replay = {}, []
    for name, r in symr.items():
        st = "proved"
        if r.get("crash"):
            st = "undecided"
        elif r["failures"]:
            st = "refuted"
        elif r["unsupported"] or r["undecided"]:
            st = "undecided"
        elif sum(v[0] for v in r["obligations"].values()) == 0 or r["paths_done"] == 0:
            st = "vacuous"
        report[name] = dict(r, status=st)
        if st == "refuted":
            for f in r["failures"]:
                if f["inputs"] is not None:
                    todo_replay.append((name, f))
        if st != "proved":
            todo_unroll[name] = 4

    def replay(items):
        if not items:
            return []
        res = worker(
            {"mode": "replay", "property": prop, "items": [{"harness": n, "inputs": f["inputs"]} for n, f in items]}
        )()
        out = []
        for i, (n, f) in enumerate(items):
            r = (res.get("results") or {}).get(str(i), {})
            if r.get("st") == "fail":
                out.append((n, f, r))
            elif r.get("st") == "ok":
                f["real_code_ok"] = True  # the real code meets the contract on this input
        return out

    confirmed = set()
    for n, f, r in replay(todo_replay):
        confirmed.add(n)
        violations.append(
            {
                "harness": n,
                "label": f["label"],
                "inputs": r["inputs"],
                "notes": r.get("notes"),
                "fails_as": r["label"],
                "how": "verifier counterexample replayed on the real code",
            }
        )

    # 3. proof attempt did not close and no failing input yet: bounded stand-ins
    already = {v["harness"] for v in violations}
    open_h = {n: k for n, k in todo_unroll.items() if n not in already}
    if open_h and not violations:
        ru = worker(
            {"mode": "sym", "property": prop, "names": list(open_h), "unroll": open_h, "workers": jobs}
        )
        rcx = worker(
            {"mode": "conc", "property": prop, "names": list(open_h), "seed": str(seed) + "x", "factor": 6, "workers": 4}
        )
        late = None if thorough else t0 + 800
        ru, rcx = ru(late), rcx(late)
        items = []
        for n, r in (ru.get("results") or {}).items():
            for f in r.get("failures", []):
                if f["inputs"] is not None:
                    items.append((n, f))
        for n, f, r in replay(items):
            confirmed.add(n)
            violations.append(
                {
                    "harness": n,
                    "label": f["label"],
                    "inputs": r["inputs"],
                    "notes": r.get("notes"),
                    "fails_as": r["label"],
                    "how": "bounded exploration counterexample replayed on the real code",
                }
            )
        for n, r in (rcx.get("results") or {}).items():
            if r.get("failure"):
                confirmed.add(n)
                violations.append(dict(r["failure"], harness=n, how="contract evaluated on the real code"))
        for n in open_h:
            if n in confirmed:
                continue
            u = (ru.get("results") or {}).get(n, {})
            # a loop-contract-free counterexample which the real code does not show is the verifier's
            # imprecision, not a violation
            u_refuted = [
                f for f in u.get("failures", []) if f["kind"] == "refuted" and not f.get("real_code_ok")
            ]
            was_refuted = report[n]["status"] == "refuted" and any(
                f["kind"] == "refuted" for f in report[n]["failures"]
            )
            # a contract with no unrolled form: every path was within the verifier's reach and an obligation is refuted
            whole = (
                was_refuted
                and not report[n].get("unsupported")
                and not report[n].get("undecided")
                and any("no unrolled form" in str(t) for t in u.get("unsupported") or [])
            )
            if was_refuted and (u_refuted or whole):
                f = report[n]["failures"][0]
                violations.append(
                    {
                        "harness": n,
                        "label": f["label"],
                        "inputs": f["inputs"],
                        "detail": f["detail"],
                        "nfif": True,
                        "how": "obligation refuted by the solver; no failing input reproduced on the real code",
                    }
                )
            else:
                report[n]["fallback"] = {
                    "bounded_symbolic": {
                        "loop unrolling": open_h[n],
                        "paths": u.get("paths"),
                        "failures": len(u.get("failures", [])),
                        "unsupported": u.get("unsupported"),
                    },
                    "sampled": (rcx.get("results") or {}).get(n, {}).get("evaluations"),
                }
                bounded_notes.append(
                    f"{n}: proof did not close on this tree ({report[n]['status']}); decided only up to a bound"
                )

    # 4. known findings
    known = [k for k in load_known() if k.get("property") == prop and k.get("status") != "fixed"]
    real = []
    hit = []
    for v in violations:
        m = next(
            (k for k in known if k["harness"] == v["harness"] and k["label"] == v["label"]), None
        )
        (hit if m else real).append((v, m))
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")

    code = 0
    if real:
        code = 1
        # prefer a violation with a failing input
        real.sort(
            key=lambda vm: (
                bool(vm[0].get("nfif")),
                vm[0]["harness"] == "*",
                "replayed" not in vm[0].get("how", ""),
            )
        )
        v = real[0][0]
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}.json")
        with open(path, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "obligation": f"{v['harness']}: {v['label']}",
                    "violation": v,
                    "functions": hmeta.get(v["harness"], (None, None, [], None))[2],
                    "all": [x[0] for x in real],
                    "replay_cmd": f"{PY} {HERE}/main.py replay {path}",
                },
                f,
                indent=1,
                default=str,
            )
        nf = v.get("nfif") or v.get("inputs") is None
        print(f"failed obligation: {v['harness']}: {v['label']}")
        if v.get("inputs") is not None:
            print(f"input: {json.dumps(v['inputs'], default=str)[:600]}")
        print(f"VIOLATION property={prop} replay={path}" + (" no-failing-input-found" if nf else ""))

    write_evidence(prop, tier, seed, t0, report, con, bounded_notes, code, hmeta)
    return code


def write_evidence(prop, tier, seed, t0, report, con, bounded_notes, code, hmeta):
    man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    entry = next((c for c in man["checks"] if c["property"] == prop), {})
    ob = dis = z3n = triv = cvc = b_ob = b_dis = 0
    funcs, bfuncs, loops, assumed, bounds = set(), set(), set(), set(), []
    solver_s = cvc_s = 0.0
    paths = queries = agree = 0
    for n, r in report.items():
        if r.get("crash"):
            continue
        tot = sum(v[0] for v in r["obligations"].values())
        d = sum(v[1] + v[2] + v[3] for v in r["obligations"].values())
        if r["status"] == "proved" and r["kind"] == "proof":
            ob += tot
            dis += d
            funcs.update(r["functions"])
        else:
            b_ob += tot
            b_dis += d
            bfuncs.update(r["functions"])
            if r.get("bound"):
                bounds.append(f"{n}: {r['bound']}")
        z3n += sum(v[1] for v in r["obligations"].values())
        triv += sum(v[2] for v in r["obligations"].values())
        cvc += sum(v[3] for v in r["obligations"].values())
        loops.update(r["cut_loops"])
        assumed.update(r["assumed"])
        solver_s += r["solver_s"]
        cvc_s += r["cvc5_s"]
        paths += r["paths"]
        queries += r["queries"]
        agree += r["cvc5_agree"]
    for n, m in hmeta.items():
        if n not in report:
            bfuncs.update(m[2])
            if m[1]:
                bounds.append(f"{n}: {m[1]}")
    evals = sum(r.get("evaluations", 0) or 0 for r in con.values())
    trusted = [
        "pyvc itself (the VC generator: AST instrumentation, symbolic proxies, numpy/builtin shadows); "
        "cross-checked on every run by a canary contract, by ordinary values through the instrumented source, "
        "and by the same contracts on the untouched code",
        "z3 5.3.2 (z3-new); cvc5 1.1.2 as second back end in the thorough tier and on unknown answers",
        "Python ints as mathematical integers (exact); floats and Fractions as real numbers",
        "CPython/PyPy semantics of list, dict, tuple, enum, itertools, sorted; numpy on concrete arrays",
    ] + sorted(assumed)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": entry.get("level", "proof"),
        "coverage": {
            "obligations": ob,
            "discharged": dis,
            "checker_cmd": entry.get("quick_cmd", ""),
            "trusted_base": trusted,
            "functions_under_contract": sorted(funcs),
            "functions_bounded_only": sorted(bfuncs - funcs),
            "bounded_obligations": b_ob,
            "bounded_discharged": b_dis,
            "bounds": bounds,
            "discharged_by": {"z3": z3n, "constant folding in the generator": triv, "cvc5": cvc},
            "second_backend_agreed": agree,
            "loops_with_invariants": sorted(loops),
            "paths": paths,
            "solver_queries": queries,
            "solver_s": round(solver_s, 2),
            "cvc5_s": round(cvc_s, 2),
            "contract_evaluations_on_real_code": evals,
            "harnesses": {
                n: {
                    "status": r["status"],
                    "kind": r.get("kind"),
                    "obligations": r.get("obligations"),
                    "paths": r.get("paths"),
                    "wall": r.get("wall"),
                    "unsupported": r.get("unsupported"),
                    "undecided": r.get("undecided"),
                    "crash": r.get("crash"),
                    "fallback": r.get("fallback"),
                    "cross_check_evaluations": (r.get("cross") or {}).get("evaluations"),
                }
                for n, r in report.items()
            },
            "degraded": bounded_notes,
        },
        "wall_s": round(time.time() - t0, 2),
        "result": "violation" if code else "held",
        "repo_head": repo_head(),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    nproved = sum(1 for r in report.values() if r["status"] == "proved" and r.get("kind") == "proof")
    print(
        f"{prop}: {dis}/{ob} obligations discharged ({nproved} harnesses proved, "
        f"{len(report) - nproved} bounded/other), {evals} contract evaluations on the real code, "
        f"{time.time() - t0:.1f}s"
    )
    for n in bounded_notes:
        print("  note: " + n)


def do_replay(path):
    d = json.load(open(path))
    v = d["violation"]
    if v.get("inputs") is None:
        print(json.dumps(v, indent=1)[:4000])
        return 1
    res = worker(
        {"mode": "replay", "property": d["property"], "items": [{"harness": v["harness"], "inputs": v["inputs"]}]}
    )()
    print(json.dumps(res, indent=1)[:4000])
    return 1 if (res.get("results") or {}).get("0", {}).get("st") == "fail" else 0


if __name__ == "__main__":
    if sys.argv[1] == "setup":  # nothing to build; make sure the tools are there
        import shutil

        missing = [t for t in (PY, "z3-new", "cvc5") if not shutil.which(t)]
        print("missing: " + ", ".join(missing) if missing else "ok")
        sys.exit(bool(missing))
    if sys.argv[1] == "replay":
        sys.exit(do_replay(sys.argv[2]))
    prop = sys.argv[2]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.exit(check(prop, tier, seed))
