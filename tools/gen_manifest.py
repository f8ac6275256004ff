#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the monitors that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "default": "runtime monitoring: generated and hostile workloads judged by an exact-arithmetic oracle",
 "C21": "runtime monitoring: operation histories checked against a reference set",
 "C28": "runtime monitoring: traversal traces checked against a deque model of the boundary",
 "C31": "runtime monitoring: recorded results of repeated and concurrent calls compared",
 "C32": "runtime monitoring: differential execution over all coordinate types",
 "C33": "runtime monitoring: operation counters against stated growth bounds",
 "C34": "runtime monitoring: panic, overflow, CPU-time and memory watchdogs on hostile workloads",
 "C35": "sanitizer: Miri and AddressSanitizer run workloads over the public API and report undefined behaviour and races",
}
NOTE = "Exploration: holds on every execution observed; seeds, families and counts are in the evidence file. Not a proof for all inputs."
NA = {"C37": "The playground server is a separate web application that needs a wasm toolchain, docker images and external storage (Google Cloud buckets) which are absent here; none of its behaviour can be executed offline, so there is nothing to monitor."}
checks, na = [], []
for l in open(os.path.join(here, "properties.jsonl")):
    i = json.loads(l)["id"]
    if os.path.exists(os.path.join(here, "harness/src/bin/%s.rs" % i.lower())) or os.path.exists(os.path.join(here, "tools/pre_%s.sh" % i.lower())):
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh %s --tier thorough" % i,
          "technique": TECH.get(i, TECH["default"]), "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
