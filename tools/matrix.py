#!/usr/bin/env python3
"""Apply each planted bug to /repo in turn, run checks, undo. usage: matrix.py [--all] [id ...]"""
import json, os, subprocess, sys, time
a = [x for x in sys.argv[1:] if not x.startswith("--")]
every = "--all" in sys.argv
S = "/verif/seeded"
ids = a or sorted(os.listdir(S))
res = {}
for b in ids:
    prop = json.load(open("%s/%s/meta.json" % (S, b)))["property"]
    props = ["C%02d" % i for i in range(1, 21)] if every else [prop]
    assert subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout == ""
    subprocess.check_call(["git", "-C", "/repo", "apply", "%s/%s/patch.diff" % (S, b)])
    try:
        row = []
        for p in props:
            t = time.time()
            r = subprocess.run(["python3", "run.py", "check", p], cwd="/verif", capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            ok = r.returncode == 1 and ("VIOLATION property=%s " % p) in r.stdout
            row.append((p, r.returncode, ok))
            if p == prop:
                print(b, p, "CAUGHT" if ok else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - t), r.stdout.split("\n")[0][:160], flush=True)
        if every:
            print("   ", b, "by", [p for p, _, ok in row if ok], "noanswer", [p for p, rc, _ in row if rc not in (0, 1)], flush=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
