#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the checks that exist."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "explicit-state exploration of the real code: every value of every choice point within the bounds is executed and judged against an independent oracle"
CONC = "stateless model checking of the real code: all schedules within a preemption bound under a controlled scheduler that owns goroutines, channels, locks, sockets and the clock"
NOTE = "Exhaustive within the bounds in the evidence file, on the current source built with shims for log, os, net, time, sync and syscall; beyond the bounds nothing is claimed. Trusted: the Go compiler, the shims, the oracle in rt/checks/{lc}."
T = {
 "C01": SEQ, "C02": SEQ, "C03": SEQ, "C04": SEQ, "C05": SEQ, "C06": SEQ,
 "C07": SEQ, "C08": SEQ + " (all operation sequences to a depth)",
 "C09": SEQ + " (all reachable range sets, every addition to each)",
 "C10": SEQ + " (all operation sequences to a depth, against an array of bytes)",
 "C11": SEQ + " (all names of a grammar, all file system effects recorded)",
 "C12": SEQ, "C13": SEQ, "C14": SEQ,
 "C15": CONC, "C16": SEQ + " (all request histories to a depth, against a model of admission)", "C17": CONC,
 "C18": SEQ + " (all operation sequences to a depth, against a model of the registry)",
 "C19": CONC + "; outcomes compared with all sequential orders", "C20": SEQ,
 "C21": SEQ + " (all command sequences to a depth, against a model of the settings)",
 "C22": SEQ, "C23": SEQ,
 "C24": "explicit-state model checking of the protocol composed from the real frame, hole and file code: all loss, duplication and reordering patterns",
 "C25": CONC, "C26": SEQ, "C27": CONC, "C28": CONC,
}
checks, na = [], []
for id in sorted(T):
    lc = id.lower()
    if os.path.exists(f"{root}/rt/checks/{lc}/main.go"):
        checks.append(dict(property=id, quick_cmd=f"./run.sh {id} --tier quick", thorough_cmd=f"./run.sh {id} --tier thorough",
            technique=T[id], level="model_checking", level_note=NOTE.format(lc=lc)))
    else:
        na.append(dict(property=id, reason="the check for it has not been built yet"))
m = dict(version=1, setup_cmd="./setup.sh", 
    hooks=dict(guard="verif", enable="no hooks are committed in /repo; every check instruments a scratch copy of /repo's working tree (rt/cmd/instr) and builds that", source_commits=[]),
    checks=checks, not_applicable=na)
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
