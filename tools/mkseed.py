#!/usr/bin/env python3
"""mkseed.py SPEC.py: plants one bug in a scratch copy, confirms it (builds, stable tests pass, demonstration
passes without and fails with it) and stores it under /verif/seeded/<id>.
SPEC.py defines id, prop, file, edits [(old,new)], needs, breaks, demo (C++ text or shell text), srcs."""
import json, os, subprocess, sys, shutil
V = "/verif"
WT = "/tmp/sw/repo"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


DEMO = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'find "$d" -mindepth 1 -delete; rmdir "$d"' EXIT
g++ -std=c++11 -O1 -w %s -I boofcpp/src/boofcv -I boofcpp/src -I boofcpp "$here/demo.cpp" %s -o "$d/demo" || exit 3
timeout 100 "$d/demo"
"""


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    if not os.path.exists(WT):
        sh("mkdir -p /tmp/sw && cp -a /repo " + WT)
    sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD && git -C %s clean -fdq -e _bs" % (WT, WT, WT))
    files = g["file"] if isinstance(g["file"], list) else [g["file"]]
    for f, o, n in [(e if len(e) == 3 else (files[0],) + tuple(e)) for e in g["edits"]]:
        p = os.path.join(WT, f)
        t = open(p).read()
        k = t.count(o)
        if k != 1:
            sys.exit("edit matches %d times in %s: %r" % (k, f, o[:80]))
        open(p, "w").write(t.replace(o, n))
    d = os.path.join(V, "seeded", g["id"])
    os.makedirs(d, exist_ok=True)
    patch = sh("git -C %s diff" % WT).stdout
    open(d + "/patch.diff", "w").write(patch)
    if "sh" in g:
        open(d + "/demo.sh", "w").write(g["sh"])
    else:
        open(d + "/demo.cpp", "w").write(g["demo"])
        open(d + "/demo.sh", "w").write(DEMO % (g.get("flags", ""), " ".join("boofcpp/src/boofcv/" + s for s in g.get("srcs", []))))
    for n, t in g.get("extra", {}).items():
        open(os.path.join(d, n), "w").write(t)
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    if r.returncode:
        ok = False
        print("demo fails on the unchanged tree:", r.returncode, r.stdout[-600:])
    r = sh("bash %s/demo.sh" % d, cwd=WT)
    if r.returncode == 0 or r.returncode == 3:
        ok = False
        print("demo with the change gives", r.returncode, r.stdout[-600:])
    else:
        print("demo with the change:", r.returncode, r.stdout[-200:].strip())
    b = sh("""cmake -S %(w)s -B %(w)s/_bs -G Ninja -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_BUILD_TYPE=Release -Dtest=ON \
 -DCMAKE_PROJECT_boofcpp_all_INCLUDE=/opt/vp/gtest_from_apt.cmake -DJAVA_HOME=/usr/lib/jvm/java-17-openjdk-amd64 -DJAVA_AWT_INCLUDE_PATH=/usr/lib/jvm/java-17-openjdk-amd64/include >/dev/null && ninja -C %(w)s/_bs -j8""" % {"w": WT})
    if b.returncode:
        sys.exit("build failed: " + b.stdout[-1500:])
    rep = "/tmp/sw/results.txt"
    sh("python3 /opt/vp/run_gtests.py %s/_bs %s" % (WT, rep))
    sh("python3 /opt/vp/results.py /tmp/sw/out.json lines:%s" % rep)
    base = json.load(open("/opt/vp/BASELINE.json"))
    res = json.load(open("/tmp/sw/out.json"))
    stable = base.get("stable") or base.get("passed") or base.get("tests") or base
    passed = set(res.get("passed", []))
    miss = [t for t in stable if t not in passed]
    print("tests: %d of %d stable pass" % (len(stable) - len(miss), len(stable)), miss[:5])
    ok = ok and not miss
    print("SEED", g["id"], "ok" if ok else "BAD")


main()
