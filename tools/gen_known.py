#!/usr/bin/env python3
"""Writes known_findings.txt: defects found by the checks. Run by hand after a fix was committed."""
import subprocess, os
PROPS = {
 "keep next_id when an empty": "C15", "accept undefiable lists": "C01", "read list items that store": "C01",
 "compare floats by their bits": "C01", "save next_id of a list even": "C15", "save the new order when": "C01",
 "save that references of an item": "C01", "read tags in the names": "C13", "allow limit_nth": "C01",
 "ignore 32-letter": "C16", "keep the parent when the next file": "C01", "keep the parents of the files": "C10",
 "look for the newest file in older": "C13", "load history files of older": "C11", "report errors of multi": "C16",
 "save documents whose own file": "C10", "save old files again": "C01", "adjust inner lists": "C11",
 "never leave half-written Dochy": "C04", "never leave half-written history": "C03", "never leave half-written source": "C12",
 "refuse to archive another source": "C12", "refuse to save under the names": "C02", "save a state that is older": "C07",
 "count saves waiting": "C08", "keep unmodified members": "C11", "do not free a definition": "C16",
 "save anew when an ancestor": "C10", "cannot be read when listing": "C16", "do not overwrite a document file whose existence": "C05", "step backwards in MListIterMut": "C19", "report the last item in is_last": "C19", "take the order of list items": "C19",
 "keep the files a kept version needs": "C10", "continue a loaded file of a cumulative": "C14",
}
WHAT = {}
out = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x01%s%x01%b%x02"], text=True)
lines = ["# Defects of the repository found by the checks.",
         "# finding: property=<id> kind=<kind> detail=<text in the report> :: <what fails>   reported as KNOWN-FINDING, the check goes on",
         "# fixed: property=<id> <commit> <what failed>", ""]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
extra = os.path.join(here, "tools", "findings.txt")
if os.path.exists(extra):
    lines += open(extra).read().splitlines()
for rec in out.split("\x02"):
    rec = rec.strip("\n")
    if not rec:
        continue
    h, s, b = (rec.split("\x01") + [""])[:3]
    if not s.startswith("fix:"):
        continue
    p = [v for k, v in PROPS.items() if k in s]
    assert len(p) == 1, s
    b = " ".join(b.split())
    lines.append(f"fixed: property={p[0]} {h} {s[5:]}" + (f" - {b}" if b else ""))
open(os.path.join(here, "known_findings.txt"), "w").write("\n".join(lines) + "\n")
