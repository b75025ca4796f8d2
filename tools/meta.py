#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run it after a change)."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SCHED = "controlled-scheduler exploration of the real code"
TECH = {
 "seq": "explicit-state enumeration of operation sequences on the real code under a controlled scheduler",
 "conc": "stateless model checking of the real code (controlled scheduler, deviation-bounded exhaustive schedules)",
 "race": "stateless model checking of the real code with happens-before race detection on every explored schedule",
 "enum": "bounded exhaustive enumeration of inputs and of random draws on the real code against a reference model",
}

# id, title, statement, over, text, why, files, mechanism, tech, note
P = []
def prop(id, title, statement, over, text, why, files, mech, tech, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, tech=tech, note=note, state=state or [], observe=observe or []))

CORE = ["core/algo.go", "core/ctrl.go", "core/status.go"]
exec(open(os.path.join(ROOT, "tools", "properties.py")).read())

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            assert re.match(r"^[A-Z][0-9]{2,3}$", p["id"])
            n = len(re.findall(r"[.;:]?\.(?:\s|$)", p["statement"]))
            assert n <= 3, (p["id"], n)
            json.dump({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }, f, ensure_ascii=False)
            f.write("\n")
    m = {"version": 1, "setup_cmd": "./run.sh setup",
         "checks": [{"property": p["id"],
                     "quick_cmd": "./run.sh check %s quick" % p["id"],
                     "thorough_cmd": "./run.sh check %s thorough" % p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"],
                     "technique": TECH[p["tech"]], "level": "model_checking",
                     "level_note": p["note"]} for p in P],
         "not_applicable": [],
         "notes": "No hook is needed in /repo: the sources are rewritten in a scratch directory (instr/) so that every goroutine, channel, lock, atomic, timer and random draw goes through a controlled scheduler (vsched/). Defects found and repaired are listed in known_findings.txt."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
main()
