#!/usr/bin/env python3
"""mkseed.py ID PROP FILE <<< 'OLD\n=====\nNEW'  (repeat blocks with =+=+= FILE) : make /verif/seeded/ID/patch.diff from text replacements."""
import sys, subprocess, os, json, re
def seed(id, prop, edits, needs, breaks, demo=None, sh=None, extra=""):
    d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
    W = "/tmp/seedwt"; subprocess.run(["rm", "-rf", W]); subprocess.run(["git", "clone", "-q", "--shared", "/repo", W], check=True)
    try:
        for f, old, new in edits:
            p = W + "/" + f; s = open(p, newline="").read()
            if s.count(old) != 1: raise SystemExit(f"{id}: {f}: {s.count(old)} matches of {old[:60]!r}")
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["rm", "-rf", W])
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if demo:
        open(d + "/demo.cpp", "w").write(demo)
        for x in ("demo.hpp", "passes.hpp", "cc.sh"): open(d + "/" + x, "w").write(open("/verif/tools/seedlib/" + x).read())
        open(d + "/demo.sh", "w").write('#!/bin/bash\n. "$(dirname "$0")/cc.sh"\n' + (f"EXTRA=\"{extra}\"\n" if extra else "") + "demo\n")
    if sh: open(d + "/demo.sh", "w").write(sh)
    print("seed", id, len(diff.splitlines()), "lines")
