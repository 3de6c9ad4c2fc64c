#!/usr/bin/env python3
"""Writes MANIFEST.json and checks.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

COMMON = [
    "gvc checks partial correctness: termination of loops is not proved (timeouts of the stand-in are the only check)",
    "the Go memory model is taken as given: a lock's critical sections are atomic for code that touches guarded state only under the lock, which gvc checks for every access in a contracted package",
]

# property -> (level, what the contracts say, what is bounded, assumptions)
T = {}
def check(p, note, bounded, assumptions=(), level="proof", trusted=()):
    T[p] = dict(level=level, note=note, bounded=bounded, assumptions=list(assumptions) + COMMON, trusted=list(trusted))

exec(open(os.path.join(V, "tools", "checks_table.py")).read())

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = []
checks = []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({"property": i,
                       "quick_cmd": "python3 /verif/check.py %s" % i,
                       "thorough_cmd": "python3 /verif/check.py --thorough %s" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "contract-based deductive verification of the real code (gvc: contracts in /verif/contracts, verification conditions generated from /repo's go/ssa on every run, discharged by z3/cvc5), failed obligations replayed by a bounded harness on the real code",
                       "level": T[i]["level"],
                       "level_note": T[i]["note"] + " Bounded stand-in (never counted as proved): " + T[i]["bounded"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "hooks": {"guard": "none (no hook is committed in /repo; the harness is laid over it with go's -overlay)",
               "enable": "check.py generates the overlay from /repo's working tree on every run",
               "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Contracts live in /verif/contracts/*.gvc, keyed by function; the verifier is /verif/gvc. Defects found and repaired are listed in /verif/known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
json.dump({k: {x: v[x] for x in ("level", "bounded", "assumptions", "trusted")} for k, v in T.items()}, open(os.path.join(V, "checks.json"), "w"), indent=1)
