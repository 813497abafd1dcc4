#!/usr/bin/env python3
"""Runs the check of the property of each planted bug (all, or those named) against /repo with the bug applied, and undoes it."""
import json, os, subprocess, sys
ROOT = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
only = sys.argv[1:]
for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    if only and not any(i.startswith(o) for o in only):
        continue
    d = os.path.join(ROOT, "seeded", i)
    prop = os.environ.get("P") or json.load(open(d + "/meta.json"))["property"]
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout == ""
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        r = subprocess.run([sys.executable, "check.py", prop, "quick"], cwd=ROOT, capture_output=True, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    out = r.stdout.strip().splitlines()
    print(i, prop, "CAUGHT" if r.returncode == 1 and any(l.startswith("VIOLATION property=" + prop) for l in out) else f"MISSED rc={r.returncode}",
          (out[0] if out else "")[:160], r.stderr[-300:], flush=True)
