#!/usr/bin/env python3
"""Copies the vendored crates to ./vendor without per-file checksums
(some *.log files are missing from the vendored copies, which cargo refuses)."""
import json, os, shutil, sys
here = os.path.dirname(os.path.abspath(__file__))
src, dst = "/opt/vp/ws/vendor", os.path.join(here, "vendor")
stamp = os.path.join(dst, ".complete")
if os.path.exists(stamp):
    sys.exit(0)
if os.path.isdir(dst):
    shutil.rmtree(dst)
shutil.copytree(src, dst, symlinks=True)
for d in os.listdir(dst):
    f = os.path.join(dst, d, ".cargo-checksum.json")
    if os.path.exists(f):
        j = json.load(open(f))
        j["files"] = {}
        json.dump(j, open(f, "w"))
open(stamp, "w").close()
