#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("grammar-based and mutational fuzzing with a no-panic/determinism oracle", ""),
 "C02": ("generated texts, differential against a reference parser", ""),
 "C03": ("generated scenes and faults, differential against a reference interpreter", ""),
 "C04": ("generated texts, differential against a reference tokeniser and interpreter", ""),
 "C05": ("generated literal spellings with independently known values", ""),
 "C06": ("generated paths and data against an independent path evaluator in every binding context", ""),
 "C07": ("generated conditional chains against the reference interpreter", ""),
 "C08": ("generated loops against the reference interpreter", ""),
 "C09": ("generated scopes against the reference interpreter, with recorded calls", ""),
 "C10": ("generated template sets against the reference interpreter, with recorded lookups", ""),
 "C11": ("generated include graphs against the reference interpreter", ""),
 "C12": ("generated trim markers against the reference interpreter", ""),
 "C13": ("generated filter chains against the reference interpreter, with recorded calls", ""),
 "C14": ("every filter signature with generated values against an independent conversion oracle", ""),
 "C15": ("generated emissions against the reference interpreter, with recorded calls", ""),
 "C16": ("differential over all entry points and generated writer fault injection", ""),
 "C17": ("generated serde data against an independent mirror oracle", ""),
 "C18": ("stateful model-based histories of engine operations", ""),
 "C19": ("generated faults against an independent location oracle", ""),
 "C20": ("differential over builds of every feature combination", ""),
 "C21": ("generated templates and value functions against the reference interpreter, with recorded calls", ""),
 "C22": ("stateful, concurrent and re-entrant generated histories with a repeatability oracle", ""),
 "C23": ("generated macro invocations compiled and compared with hand-built values", ""),
 "C24": ("metamorphic relations over generated templates", ""),
 "C25": ("generated delimiter sets, differential against the reference model and the default spelling", ""),
}
import subprocess
have = subprocess.run([here + "/target/debug/vt", "list"], capture_output=True, text=True).stdout.split()
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
NOTE = ("Randomised search with a fixed seed: no violation among the generated cases counted in the evidence; "
        "trusts the reference model / oracle in harness/src and the stated input domain (DESIGN.md).")
m = {
 "version": 1,
 "setup_cmd": "bash build.sh",
 "checks": [dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
                 technique=T[i][0], level="exploration", level_note=(T[i][1] + " " + NOTE).strip()) for i in props if i in have],
 "not_applicable": [dict(property=i, reason="check under construction") for i in props if i not in have],
 "notes": "check.sh rebuilds the harness against /repo's working tree, then runs the search; `target/debug/vt replay FILE` replays a violation.",
}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
