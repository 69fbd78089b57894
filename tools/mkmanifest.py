#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(ROOT, "lib"))
import props
DEC = "TLA+ decoder machine model-checked by TLC; its behaviours replayed into the code, and recorded executions judged by TLC against it"
ENC = "TLA+ schema and encoder specification model-checked by TLC; its behaviours replayed into the code, and recorded executions judged by TLC"
TECH = {"C07": ENC, "C10": DEC + ", for all entry points", "C11": "TLA+ machines of decoder and reader, encoder and writer (all schedules and faults) checked by TLC; replayed with those reads and writes, and recorded executions judged by TLC",
        "C12": "TLA+ growth machine checked by TLC; its behaviours replayed, and the allocations of recorded executions judged by TLC against its budget",
        "C13": "TLA+ schema: what every read operation has to answer, judged by TLC on recorded reads of nodes built by behaviours of the specification",
        "C14": "TLA+ assembler machine model-checked by TLC; a test per transition replayed, and recorded call sequences judged by TLC",
        "C15": ENC, "C16": "TLA+ store and SHA-1 specification; histories replayed through a link system and judged by TLC",
        "C17": "TLA+ sessions machine model-checked by TLC; histories replayed sequentially and concurrently under the race detector, judged by TLC",
        "C18": "TLA+ block machine model-checked by TLC over all CIDs of a grid; replayed, and recorded executions judged by TLC", "C19": ENC}
NOTE = ("Within the model's bounds (listed in the evidence file) every behaviour of the specification is explored and run on the real code; beyond them, seeded random and corpus "
        "inputs are run on the code and decided by the same specification. Trusted: TLC, the specification's reading of git's format (cross-checked against an independent "
        "generative grammar in GitFormat/GitObjects), the Go driver that records results, known-findings.txt.")
checks = []
for p in sorted(props.PROPS):
    checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "technique": TECH.get(p, DEC), "level": "model_checking", "level_note": NOTE})
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
na = [{"property": i, "reason": "its check is still being built"} for i in ids if i not in props.PROPS]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks drive the package through its exported API. Genuine defects that were repaired, and those that are recorded only, are listed in known-findings.txt."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
