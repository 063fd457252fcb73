"""plant.py SPEC.py: make one planted bug from a spec file defining
ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO (python text) -- verify it and store it in seeded/ID.
plant.py --check ID...: run the property's check against the planted bug in a scratch copy."""
import json, os, subprocess, sys, shutil
ROOT = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
PY = "/opt/venv/bin/python"

DEMO_SH = '''#!/bin/bash
# exit 0 when the behaviour is right
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def run(cmd, cwd=None, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **k)


def scratch(tag):
    d = f"/tmp/plant_{tag}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    return d


def check(i):
    out = os.path.join(ROOT, "seeded", i)
    meta = json.load(open(out + "/meta.json"))
    d = scratch(i)
    try:
        r = run(["git", "apply", out + "/patch.diff"], cwd=d)
        assert r.returncode == 0, r.stderr
        env = dict(os.environ, PYVC_REPO=d)
        r = run([ROOT + "/check.sh", meta["property"]], env=env)
        lines = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "failed", "checker"))]
        print(i, "exit", r.returncode, *lines, r.stderr[-300:], sep=" | ", flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if sys.argv[1] == "--check":
        ids = sys.argv[2:] or sorted(os.listdir(ROOT + "/seeded"))
        for i in ids:
            check(i)
        return
    g = {}
    exec(open(sys.argv[1]).read(), g)
    for s in g["SPECS"]:
        i = s["id"]
        d = scratch(i)
        out = os.path.join(ROOT, "seeded", i)
        try:
            for f, a, b in s["edits"]:
                p = os.path.join(d, "harmonic_inference", f)
                t = open(p).read()
                assert t.count(a) == 1, (i, f, t.count(a), a)
                open(p, "w").write(t.replace(a, b))
            diff = run(["git", "diff"], cwd=d).stdout
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(diff)
            open(out + "/demo.py", "w").write(s["demo"].lstrip("\n"))
            open(out + "/demo.sh", "w").write(DEMO_SH)
            os.chmod(out + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            good = run(["bash", out + "/demo.sh"], cwd="/repo")
            bad = run(["bash", out + "/demo.sh"], cwd=d)
            t = run([PY, "-m", "pytest", "-q", "-x", "--co", "-q"], cwd=d)
            names = json.load(open("/opt/vp/BASELINE.json"))
            tests = run(["bash", "-c", f"cd {d} && {PY} -m pytest -q 2>&1 | tail -3"])
            print(i, "demo on tree:", good.returncode, "with bug:", bad.returncode, "| tests:", tests.stdout.strip().splitlines()[-1:], flush=True)
            if good.returncode != 0:
                print(good.stdout[-800:], good.stderr[-800:])
            if bad.returncode == 0 or "Error" in bad.stderr and "AssertionError" not in bad.stderr:
                print("   bad:", bad.stderr[-600:])
        except AssertionError as e:
            print(i, "not planted:", e, flush=True)
            continue
        finally:
            shutil.rmtree(d, ignore_errors=True)
        check(i)


main()
