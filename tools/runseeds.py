#!/usr/bin/env python3
"""Applies each seeded change to /repo, runs its property's check, undoes it; says what was caught."""
import json, os, subprocess, sys, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[1:]
CAUGHT = os.path.join(R, "tools", "caught.json")
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    if only and not any(d.startswith(o) for o in only):
        continue
    p = os.path.join(R, "seeded", d)
    pid = json.load(open(os.path.join(p, "meta.json")))["property"]
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True).stdout.strip()
    a = subprocess.run(["git", "-C", "/repo", "apply", os.path.join(p, "patch.diff")], capture_output=True, text=True)
    if a.returncode:
        print(d, "DOES NOT APPLY", a.stderr)
        continue
    t = time.time()
    try:
        r = subprocess.run(["python3", "checks/run.py", pid], cwd=R, capture_output=True, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(f"{d}: {'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode} ({time.time()-t:.0f} s)", flush=True)
    c = json.load(open(CAUGHT))
    c[d] = pid if r.returncode == 1 and v else "missed"
    json.dump(c, open(CAUGHT, "w"), indent=1, sort_keys=True)
    if r.returncode not in (0, 1):
        print(r.stdout[-1500:], r.stderr[-500:])
