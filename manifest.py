#!/usr/bin/env python3
# Writes MANIFEST.json from the tables below.
import json, os
EQ = "static analysis: normal-form comparison of the SSA of the code with a reference definition (abstract interpretation over all paths, loops as recurrences)"
STEP = "static analysis: one-step simulation of the event loop (SSA) against a reference step function, inductive relation of states found as a greatest fixed point; " + EQ
claimed = {
    "C01": STEP, "C02": STEP, "C03": STEP, "C04": STEP, "C05": STEP + "; one step of the reader goroutine against a reference, sharing of memory and driver calls between goroutines",
    "C06": STEP + "; one step of the reader goroutine against a reference",
    "C08": "ownership analysis: freshness of event buffers, step of the event loop with reachability, backward value flow and single-store rule",
    "C07": EQ + "; the session's requests as an effect trace",
    "C09": EQ, "C10": EQ, "C11": EQ, "C12": EQ, "C13": EQ, "C15": EQ, "C16": EQ, "C17": EQ,
    "C14": EQ + "; recursion as a symbol shared with the reference (induction on depth)",
    "C18": EQ + "; ownership rule on what AddGTID writes",
    "C19": EQ + "; ownership rule on what AddGTID writes; text round trips as structured strings",
    "C20": EQ + "; json.Marshal as a term over the types' tags and methods",
}
na = {
}
checks = [{"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
           "technique": t, "level": "other",
           "level_note": "decided from the source for all inputs; see DESIGN.md"} for p, t in sorted(claimed.items())]
ids = [f"C{i:02d}" for i in range(1, 21)]
out = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
       "not_applicable": [{"property": p, "reason": na.get(p, "check under construction")} for p in ids if p not in claimed]}
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
