#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan: every property with a plan entry is claimed."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from driver import plan
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
TECH = {
    "C06": "exhaustive enumeration of pairs of objects (neighbours, cancelling differences, all pairs of pools), equality compared with equality of encodings",
    "C07": "exhaustive enumeration of operand pairs at every butterfly and product, compared with the executable reference model",
    "C08": "explicit-state exploration of the sampler (all states x all classes of next input, through the real code), compared with the reference automaton",
    "C11": "exhaustive enumeration of generator scripts with a fault at every call, compared with the reference model",
    "C12": "exhaustive exploration of operation words (de Bruijn histories), nested operations, thread hand-over schedules, and preemption-bounded schedules at every access to shared memory, compared with the reference model",
    "C13": "exhaustive enumeration of object lifetimes (histories x ends of life x secrets), judged by noninterference of the memory left behind",
    "C14": "exhaustive enumeration of configurations (feature sets, profiles, interpreted targets), each executed on fixed cases against the reference model",
    "C15": "exhaustive enumeration of extreme inputs executed under sanitizer, overflow checks and Miri",
    "C20": "exhaustive enumeration of operation words and value pairs on recording wrapped values",
    "C21": "exhaustive enumeration of secret inputs, each execution's instruction trace compared with a reference execution (2-safety by self-composition)",
    "C22": "exhaustive enumeration of parameter sets and structured inputs, compared with the executable reference model",
    "C24": "exhaustive enumeration of inputs and of configurations: each execution's heap and stack use compared with a reference execution",
    "C23": "exhaustive enumeration of the operating system's answer sequences (fault injection at the system call)",
}
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "hooks": {
        "guard": "cfg(kems_verif)",
        "enable": "RUSTFLAGS='--cfg kems_verif' when building a harness crate that depends on /repo/ml-kem by path",
        "source_commits": ["b8903c0"],
    },
    "checks": [],
    "not_applicable": [],
    "notes": "Every check is `python3 check.py <ID>`; it rebuilds the crates under test from /repo's working tree (freshness by content hash) and enumerates finite sets of executions completely. See DESIGN.md.",
}
for i in ids:
    if i in plan.PLAN:
        p = plan.PLAN[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} --tier quick",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "model checking on the real code: " + TECH.get(i, "exhaustive enumeration of a stated finite input space, each execution compared with an executable reference model"),
            "level": "model_checking",
            "level_note": ("Within the stated finite sets: " + p["rule"] + ". Assumes: " + "; ".join(p["assumptions"]) + ".")[:1500],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]])
