#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand, output committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "exhaustive enumeration of executions of the real code (stateless explicit-state model checking) within the bounds listed in the evidence file"
T = "trusts the source instrumentor, the controlled runtime (virtual time, sequentially consistent memory) and the fake control plane; bounded depth"
C = {
 "C01": ("all histories of lookups, pushes, sweeps and stream breaks up to a depth vs. a reference fold", T),
 "C02": ("all histories with valid, corrupt and unknown responses vs. exact ACK/NACK and no-change-on-NACK rules", T),
 "C03": ("all histories plus all schedules within a deviation bound vs. the interest-set history", T),
 "C04": ("all placements of stream failures in histories and bounded-deviation schedules vs. per-stream nonce/resubscription rules", T),
 "C05": ("all histories and bounded-deviation schedules with cancels and timers vs. value-xor-error in bounded virtual time", T),
 "C06": ("all bounded-deviation schedules of concurrent lookups, deliveries, timeouts and cancels", T),
 "C07": ("all bounded-deviation schedules of concurrent operations: linearizability search, race detector on every execution, deadlock detection", T),
 "C08": ("exhaustive enumeration of route tables x calls vs. an independent matcher", "bounded tables; inputs outside the supported match kinds are not generated"),
 "C09": ("exhaustive enumeration of every value of every random draw of the pick; exact probabilities", "bounded weights; the random source is assumed uniform"),
 "C10": ("exhaustive enumeration of clusters and load assignments through the real resolver and manager vs. a reference flattening", T),
 "C11": ("exhaustive enumeration of a protobuf grammar vs. an independent summary", "bounded messages"),
 "C12": ("exhaustive enumeration of a protobuf grammar vs. an independent summary", "bounded messages"),
 "C13": ("exhaustive enumeration of short byte strings and of all single-byte mutations and truncations of seed payloads vs. independent validity rules", "bounded payloads"),
 "C14": ("exhaustive enumeration of hosts x name tables and of all histories of name-table and listener updates vs. a reference binding", T),
 "C15": ("exhaustive enumeration of all outcomes of every step of routing, retry-key and resolution vs. a reference", "bounded set of outcomes per step"),
 "C16": ("all histories of cluster updates and late breakers vs. the policies derived from the latest update", T),
 "C17": ("all histories of route-table updates and late retry policies vs. the policies derived from the cached tables", T),
 "C18": ("all histories of listener updates, late limiters and server starts vs. the limit derived from the current listener", T),
 "C19": ("all histories over virtual time with sweeps, plus bounded-deviation schedules of sweeps against lookups and updates", T),
 "C20": ("exhaustive enumeration of environments through the real initialisation vs. a reference node", T),
}
done = [p for p in sorted(C) if os.path.exists(os.path.join(V, "rt/cmd", p.lower(), "main.go"))]
m = {"version": 1, "setup_cmd": "true",
 "hooks": {"guard": "none", "enable": "no hooks: the checks copy /repo's working tree, instrument the copy and build it", "source_commits": []},
 "checks": [{"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
   "evidence_file": "evidence/%s.json" % p, "technique": "explicit-state model checking of the implementation: " + C[p][0],
   "level": "model_checking", "level_note": E + "; " + C[p][1]} for p in done],
 "not_applicable": [{"property": p, "reason": "check under construction"} for p in sorted(C) if p not in done]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
