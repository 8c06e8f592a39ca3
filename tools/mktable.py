#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (documentation only)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "## Planted bugs (seeded/) and what catches them\n"
BY = {  # property of the harness (sub-check) that reports it, where the check has several
    "and-margin": "thresholds", "mux-same-mask": "related_calls", "int-decrypt-single": "int_boundaries",
    "relinearisation-static": "same_operation, also under ThreadSanitizer", "noise-skips-last": "noise of every coefficient",
    "thread-id-seed": "threads of one process compared", "lvlhalf-key-prefix": "correlation between levels",
    "shared-generator": "concurrent encryption, also under ThreadSanitizer",
}
rows = ["Each was built, passes the 80 stable tests, fails its demo, and is reported by the check of its property.", "",
        "| planted bug | check | needs |", "|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    i = os.path.basename(os.path.dirname(m))
    j = json.load(open(m))
    by = j["property"] + (" (%s)" % BY[i] if i in BY else "")
    rows.append("| %s | %s | %s |" % (i, by, j["needs"].replace("|", "\\|")))
d = open(os.path.join(V, "DESIGN.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(d[:d.index(HEAD) + len(HEAD)] + "\n".join(rows) + "\n")
