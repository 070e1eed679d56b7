#!/usr/bin/env python3
"""Writes MANIFEST.json from the claims below."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
CL = {}
NA = {
"C06": "Ownership of bus objects is split between calls by conventions the C types do not carry (borrowed, handed over, retained by a container), and differs per operation; a static ownership analysis needs that table for some 400 internal functions. Without it every report would be a guess. The parts that are decidable without it are in C05 (counts, destructors) and C19 (use after free in walks).",
"C09": "The sequences are decided by run-time data on both sides (loops over property lists, optional parts that depend on a flag sent earlier); matching two such programs statically needs a product construction over both, which was started and is not sound enough to claim. The nested value codec is covered by C10, the stored form of subscriptions by C18, the transport header by C11.",
"C15": "Which failures decide an operation's outcome and which are to be tolerated (best-effort notifications, cache files, log-only failures) is a matter of intent the source does not state; a static rule 'every failing call makes the caller fail' is wrong for this code in dozens of places. The mapping of codes is C20.",
"C16": "Error paths of this code base leak in dozens of places that predate this work (listed in DESIGN.md); a leak analysis here would be a list of known findings that hides new ones in the same function. Memory freed while still reachable is covered by C19, threads and mutexes by C26.",
"C17": "What was set up for a handle is spread over global vectors, trees and caches keyed by name at run time; that nothing is left after a close is a statement about their contents, which no static argument in reach bounds. Parts with a static core are claimed: routes of a client that goes (C24), threads (C26), lists (C19), saved subscriptions (C18).",
"C21": "The code breaks it in its design: a request made on a callback thread waits inside rtConnection_Read, whose time-out is per fragment, rounded to seconds and absent for 0, and some APIs take a time-out they ignore; bounding wall-clock time of these waits is a run-time quantity. Condition waits themselves are covered by C04.",
}
def claim(i, tech, note):
    CL[i] = (tech, note)
claim("C01", "path-sensitive interprocedural lock typestate on LLVM IR",
      "All paths of all functions with loop joins; function summaries to a fixpoint; locks are told apart by access path.")
exec(open(HERE + "/tools/claims.py").read()) if os.path.exists(HERE + "/tools/claims.py") else None
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in CL:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": CL[i][0], "level": "other", "level_note": CL[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check for it has been built (yet).")})
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
