#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks that exist."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {
 "C01": "property-based testing: generated conforming client streams, round-trip oracle",
 "C02": "property-based testing and structured fuzzing of client byte streams against a reference decoder",
 "C03": "property-based testing: generated limits and message shapes, exact accept/reject oracle",
 "C04": "property-based testing: generated text payloads against an independent UTF-8 validator",
 "C05": "property-based testing: generated write sequences, round-trip through a strict client parser",
 "C06": "property-based testing of generated concurrent histories on a controlled transport, history oracle",
 "C07": "property-based testing: generated ping/pong sequences against a reference model",
 "C08": "property-based testing on a virtual clock: generated keepalive timings against a timing model",
 "C09": "property-based testing: generated close handshakes against a reference model",
 "C10": "property-based testing of generated concurrent close histories, exactly-once oracle",
 "C11": "property-based testing of generated lifecycles with fault injection, leak oracle",
 "C12": "property-based testing with generated and enumerated transport faults on a virtual clock",
 "C13": "stateful model-based testing with generated error-provoking calls",
 "C14": "property-based testing: generated handshake requests against a reference model",
 "C15": "property-based testing: generated upgrades with early data, hook-order oracle",
 "C16": "property-based testing on a virtual clock against an exact token-bucket model",
 "C17": "stateful model-based testing of manager histories",
 "C18": "stateful model-based testing of room histories, sequential and concurrent",
 "C19": "stateful model-based testing of broadcasts",
 "C20": "property-based testing of generated backpressure histories on a controlled transport",
 "C21": "property-based testing of generated batching histories, decoding oracle",
 "C22": "property-based testing on a virtual clock: batch size, interval and shutdown model",
 "C23": "property-based testing of generated shutdown histories on a virtual clock",
 "C24": "property-based testing of generated multi-connection histories with tagged bytes",
 "C25": "generated concurrent histories run under the race detector",
 "C26": "property-based testing: generated JSON values, round-trip and differential oracle",
 "C27": "property-based testing: generated configurations, each limit and duration measured in virtual time against the documented value",
 "C28": "property-based testing: generated hostile input and repeated histories, memory, stacks and goroutines measured against bounds",
 "C29": "property-based testing: one generated failure per case, its error compared with the provoked cause",
 "C30": "metamorphic testing: generated scripts run with and without generated disturbances on a virtual clock, the traces compared",
}
NOTE = "Holds on every generated case of the run (counts and class distribution in the evidence file); it is a search, not a proof. Trusts Go's runtime and testing/synctest, pgregory.net/rapid, the harness's net.Conn model and its reference model."
have = []
d = V + "/harness/props"
for p in props:
    if os.path.exists(f"{d}/{p['id'].lower()}.go"):
        have.append(p["id"])
m = {"version": 1, "setup_cmd": "./build.sh both", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in have:
        m["checks"].append({"property": i, "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": "exploration", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": "its check is not built yet"})
m["notes"] = "All checks share one harness (harness/), built by build.sh from /repo's working tree. No hooks in /repo are needed: everything is judged through the exported API and a net.Conn under the harness's control."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(have), "claimed")
