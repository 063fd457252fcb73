"""Single source of properties.jsonl and MANIFEST.json: run me after editing."""
import json
import os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROPS, NA = [], []
TECH = (
    "contract-based deductive verification: contracts on the functions in /repo, verification conditions generated "
    "from their current source on every run (pyvc), discharged by z3, cvc5 as second back end"
)
TECH_BOUNDED = (
    "contract-based: executable contracts on the real functions, checked within the stated bound (bounded stand-in, not a "
    "discharged proof)"
)
ASSUMES = (
    " Assumes the VC generator pyvc, the solvers, reals for floats, and the documented behaviour of the Python "
    "standard library and numpy; every assumed contract is listed in the evidence's trusted_base."
)


def prop(id, title, statement, text, why, mech, files=None, over=("inputs",), state=(), observe=(), note="", level="proof", tech=None):
    assert len(title) <= 80, title
    fs = files or sorted({w.split(":")[0] for _, w in mech})
    PROPS.append(
        {
            "p": {
                "id": id,
                "title": title,
                "statement": statement,
                "quantifier": {"over": list(over), "text": text},
                "why_tests_cant": why,
                "anchors": {
                    "files": fs,
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": list(observe),
                    "hook_needed": None,
                },
            },
            "level": level,
            "tech": tech or TECH,
            "note": note + ASSUMES,
        }
    )


def na(id, title, statement, text, why, mech, reason, over=("inputs",)):
    prop(id, title, statement, text, why, mech, over=over)
    PROPS[-1]["na"] = reason


HU = "harmonic_inference/utils/harmonic_utils.py"
HC = "harmonic_inference/utils/harmonic_constants.py"
RU = "harmonic_inference/utils/rhythmic_utils.py"
BSU = "harmonic_inference/utils/beam_search_utils.py"
EU = "harmonic_inference/utils/eval_utils.py"
CU = "harmonic_inference/utils/corpus_utils.py"
CH = "harmonic_inference/data/chord.py"
KEY = "harmonic_inference/data/key.py"
NOTE = "harmonic_inference/data/note.py"
PIECE = "harmonic_inference/data/piece.py"
VD = "harmonic_inference/data/vector_decoding.py"
DSET = "harmonic_inference/data/datasets.py"
JM = "harmonic_inference/models/joint_model.py"

exec(open(os.path.join(ROOT, "tools", "catalogue_entries.py")).read())


def main():
    ids = [e["p"]["id"] for e in PROPS]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for e in PROPS:
            f.write(json.dumps(e["p"]) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B pyvc/main.py setup",
        "checks": [
            {
                "property": e["p"]["id"],
                "quick_cmd": f"./check.sh {e['p']['id']} quick",
                "thorough_cmd": f"./check.sh {e['p']['id']} thorough",
                "evidence_file": f"evidence/{e['p']['id']}.json",
                "technique": e["tech"],
                "level": e["level"],
                "level_note": e["note"],
            }
            for e in PROPS
            if "na" not in e
        ],
        "not_applicable": [{"property": e["p"]["id"], "reason": e["na"]} for e in PROPS if "na" in e],
        "notes": "No hooks in /repo: the functions are instrumented mechanically from the current source at load time. "
        "Fixes of genuine defects are listed in known_findings.jsonl.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
