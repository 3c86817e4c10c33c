#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
T_SEQ = "bounded exhaustive exploration of API call histories on the real library, in lockstep with a reference model"
T_ENUM = "exhaustive enumeration of a bounded input space on the real library, judged by an independent reader"
T_FAULT = "exhaustive enumeration of file-system fault and crash points of the real save (libc interposition)"
T_INTER = "stateless exploration of all interleavings of handle and workbook steps on the real library"
CLAIMED = json.load(open(f"{root}/tools/claims.json"))
NA = {"C20": "The FFI crate (rs_ffi) does not build from this tree offline (its flatbuffers dependency and generated code are absent), so there is no implementation to explore and nothing to bind a model to."}
tech = {"seq": T_SEQ, "enum": T_ENUM, "fault": T_FAULT, "inter": T_INTER}
lev = {"seq": "model_checking", "enum": "exploration", "fault": "fault_enumeration", "inter": "model_checking"}
m = {"version": 1, "setup_cmd": "bash check.sh build", "checks": [], "not_applicable": [],
     "notes": "One Rust explorer (mc/) drives the public API of /repo's crate; no hooks in /repo. See DESIGN.md. Known findings and repaired defects: known_findings.txt."}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        k, note = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": tech[k], "level": lev[k], "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
