#!/usr/bin/env python3
"""refac.py NAME [CHECK...]: applies the behaviour-preserving edits of tools/refac/NAME.py to a scratch copy of /repo and runs the checks there.
Every check has to stay quiet."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "/tmp/sw/rf_" + sys.argv[1]
shutil.rmtree(D, ignore_errors=True)
os.makedirs(D)
for x in ("boofcpp", "boofcpp-jni"):
    shutil.copytree("/repo/" + x, D + "/" + x)
env = {}
exec(open(os.path.join(V, "tools/refac", sys.argv[1] + ".py")).read(), env)
for f, old, new in env["EDITS"]:
    p = os.path.join(D, f)
    s = open(p).read()
    if s.count(old) < 1:
        print("NOT FOUND in %s: %s" % (f, old[:80])); sys.exit(2)
    open(p, "w").write(s.replace(old, new, 1))
I = D + "/boofcpp/src/boofcv"
J = "/usr/lib/jvm/java-17-openjdk-amd64/include"
bad = 0
for root, ext in ((D + "/boofcpp/src/boofcv", ".cpp"), (D + "/boofcpp/test", ".cpp"), (D + "/boofcpp-jni/src/main/cpp", ".cpp")):
    ps = []
    for n in sorted(os.listdir(root)):
        if n.endswith(ext):
            ps.append((n, subprocess.Popen(["g++", "-std=gnu++11", "-w", "-fsyntax-only", "-I" + I, "-I" + D + "/boofcpp/src", "-I" + root, "-I" + J, "-I" + J + "/linux",
                                            "-I/repo/_build", os.path.join(root, n)], stderr=subprocess.PIPE)))
    for n, p in ps:
        e = p.communicate()[1].decode()
        if p.returncode and "gtest" not in e.split("\n")[0]:
            bad = 1
            print("does not compile:", n, e[:600])
if bad:
    sys.exit(2)
checks = [c.upper() for c in sys.argv[2:]] or sorted(f[:-3].upper() for f in os.listdir(V + "/checks") if f[0] == "c" and f[1:3].isdigit())
tot = 0
for c in checks:
    r = subprocess.run([sys.executable, V + "/checks/run.py", c, "quick"], capture_output=True, text=True, env=dict(os.environ, BOOF_REPO=D, VERBOSE="400"))
    lines = r.stdout.splitlines()
    summ = [l for l in lines if "obligations:" in l]
    ref = [l for l in lines if l.startswith("refuted")]
    known = sum(1 for l in lines if "KNOWN-FINDING" in l)
    v = [l for l in lines if l.startswith("VIOLATION")]
    print(c, r.returncode, summ[-1][5:90] if summ else r.stderr[-300:], "!!! %d VIOLATIONS" % len(v) if v else "")
    if v:
        for l in ref[:6]:
            print("    ", l[:420])
    tot += len(v)
print("TOTAL", tot)
if not os.environ.get("KEEP"):
    shutil.rmtree(D, ignore_errors=True)
