#!/usr/bin/env python3
import json, os, sys, subprocess
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from checks import CHECKS
NA = {
 "C20": "A pure function of the evidence and the prefixes: no schedule, clock, fault or I/O can change its answer, so a simulator has nothing to decide. Its behaviour when allocations fail is part of C13, and what concurrent requests see of it is part of C26.",
 "C21": "Parsing and comparing addresses is a pure function of the text; no nondeterminism or fault reaches it.",
 "C22": "Bit-level conversion is a pure function of the value; no nondeterminism or fault reaches it.",
 "C23": "Name matching is a pure function of the strings; only its allocation failures are faults, and those belong to C13 (what concurrent requests see of it belongs to C26).",
 "C24": "The tree is a sequential structure used under its owners' locks. Its effect is exercised inside C02 and C14, but balance and order over all insert/delete sequences are a property of inputs alone.",
}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append(dict(property=i, quick_cmd="python3 run.py check %s quick" % i, thorough_cmd="python3 run.py check %s thorough" % i,
            technique="deterministic simulation with fault injection (seeded schedule and fault search)", level="exploration",
            level_note=CHECKS[i].get("note", "Seeded search over schedules and faults of the real code under a simulated scheduler, heap, disk and clock: a clean run is evidence, not proof. Sequentially consistent memory only; the libc stand-ins are trusted.")))
    else: na.append(dict(property=i, reason=NA.get(i, "Not yet claimed: its simulation is not built.")))
fix = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
m = dict(version=1, setup_cmd="python3 run.py build dbg rel",
    hooks=dict(guard="none", enable="No source hooks: /repo's sources are compiled as they are with access instrumentation (clang -fsanitize=thread callbacks implemented by sim/rt.cpp) and their libc calls are bound to the simulator with objcopy --redefine-syms.", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="One simulator binary per build variant, rebuilt by every check from /repo's working tree. 'python3 run.py replay FILE' replays a reported violation; 'python3 run.py selftest' proves determinism.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
