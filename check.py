#!/usr/bin/env python3
"""Decides one property:  check.py C04 [--tier quick|thorough] [--replay FILE]

Exit 0: it held on everything explored.  Exit 1 with a VIOLATION line: it is broken.
Anything else is an error of the check itself.
"""
from concurrent.futures import ThreadPoolExecutor
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from driver import build, plan  # noqa: E402


def load_findings():
    out = []
    path = os.path.join(HERE, "known-findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#") and line.startswith("{"):
                out.append(json.loads(line))
    return out


def matches(finding, prop, part, f):
    return (
        finding["property"] == prop
        and finding["part"] == part
        and finding["section"] == f["section"]
        and finding["key"] == f["key"]
    )


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.property
    if prop not in plan.PLAN:
        sys.exit(f"unknown property {prop}")
    spec = plan.PLAN[prop]
    t0 = time.time()
    replay = json.load(open(a.replay)) if a.replay else None
    results, notes = [], []
    errors = []

    def run(part):
        print(f"{prop} {part.name} ({tier})", flush=True)
        try:
            return part, part.run(tier, replay)
        except build.CheckError as e:
            errors.append(f"{part.name}: {e}")

    parts = [p for p in spec["parts"] if not replay or replay["part"] == p.name]
    if tier == "quick":
        parts = [p for p in parts if not p.deep]
    with ThreadPoolExecutor(len(parts) if spec["together"] else 1) as ex:
        results = [r for r in ex.map(run, parts) if r]
    findings = load_findings()
    sections, samples, violations, known = [], [], [], []
    for part, r in results:
        for s in r["sections"]:
            s = dict(s, part=part.name)
            if s["samples"]:
                samples.append({"part": part.name, "section": s["name"], "case": s["samples"][0]})
            s["samples"] = s["samples"][:1]
            sections.append(s)
        notes += [f"{part.name}: {n}" for n in r["notes"]]
        for f in r["failures"]:
            hit = next((k for k in findings if matches(k, prop, part.name, f)), None)
            (known if hit else violations).append((part, f, hit))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    if not replay:
        ev = {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": "model_checking",
            "coverage": {
                "states": sum(s["states"] for s in sections),
                "transitions": sum(s["transitions"] for s in sections),
                "traces_validated_against_impl": sum(s["traces"] for s in sections),
                "samples": samples[:60],
                "exhaustive": bool(sections) and all(s["complete"] for s in sections),
                "rule": spec["rule"],
                "explanation": "states: configurations enumerated (one per element of each section's finite set, more where a section says so); "
                "transitions: operations of the real code executed; traces: executions of the real code compared with the reference model or invariant. "
                "exhaustive refers to the finite sets named in the sections, each of which was enumerated completely; no sampling.",
                "sections": sections,
            },
            "assumptions": spec["assumptions"] + notes + [f"no answer: {e.splitlines()[0]}" for e in errors],
            "wall_s": round(time.time() - t0, 2),
            "violations": len(violations),
        }
        path = os.path.join(HERE, "evidence", f"{prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
    for part, f, k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
    for part, f, _ in violations:
        print(f"  {part.name} / {f['section']} #{f['index']} [{f['key']}] x{f['count']}: {f['detail']}", flush=True)
    if violations:
        part, f, _ = violations[0]
        path = os.path.join(HERE, "replay", f"{prop}-{os.getpid()}.json")
        if not replay:
            with open(path, "w") as o:
                json.dump({"property": prop, "tier": tier, "part": part.name, **f,
                           "command": f"python3 check.py {prop} --tier {tier} --replay {path}"}, o, indent=1)
        else:
            path = a.replay
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    if errors:
        # a part without an answer; what the others found has been said
        print("ERROR: " + "\nERROR: ".join(errors), flush=True)
        return 2
    tot = sum(s["states"] for s in sections)
    print(f"{prop}: held on {tot} states, {sum(s['transitions'] for s in sections)} transitions, "
          f"{sum(s['traces'] for s in sections)} validated traces in {time.time() - t0:.1f} s", flush=True)
    if not sections:
        print("ERROR: nothing was explored")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
