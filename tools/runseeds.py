#!/usr/bin/env python3
"""runs the check of each planted bug's property (or the given properties) on a scratch copy with the bug"""
import json, os, subprocess, sys
V = "/verif"
WT = "/tmp/sw/repo"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


sel = sys.argv[1:]
for s in sorted(os.listdir(V + "/seeded")):
    if sel and not any(x in s for x in sel):
        continue
    m = json.load(open("%s/seeded/%s/meta.json" % (V, s)))
    sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD && git -C %s clean -fdq -e _bs" % (WT, WT, WT))
    a = sh("git -C %s apply %s/seeded/%s/patch.diff" % (WT, V, s))
    if a.returncode:
        print(s, "patch does not apply", a.stdout[:200])
        continue
    r = sh("BOOF_REPO=%s python3 checks/run.py %s quick" % (WT, m["property"]), cwd=V)
    hit = "VIOLATION property=%s" % m["property"] in r.stdout
    first = [l for l in r.stdout.splitlines() if l.startswith("  ")][:1]
    print("%-34s %s rc=%d %s %s" % (s, m["property"], r.returncode, "CAUGHT" if r.returncode == 1 and hit else "MISSED", (first or r.stdout.splitlines()[-1:])[0][:150]))
    sys.stdout.flush()
sh("git -C %s checkout -q -- ." % WT)
