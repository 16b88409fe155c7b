"""Obligation runner shared by all checks: evaluates obligations in parallel, applies the
known-findings file, writes evidence, prints VIOLATION / KNOWN-FINDING lines, exits 0 or 1."""
import fnmatch
import json
import os
import pickle
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BOOF_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)


class Ob:
    """one proof obligation.  fn(*args) -> dict(status=proved|refuted|open|na, loc, detail, ...)"""

    def __init__(self, key, fn, *args, **kw):
        self.key, self.fn, self.args = key, fn, args
        self.timeout = kw.get("timeout", 90)


def relloc(loc):
    if not loc:
        return None
    if isinstance(loc, tuple):
        f, l = loc[0], loc[1]
        if f and f.startswith(REPO + "/"):
            f = f[len(REPO) + 1:]
        return "%s:%s" % (f, l)
    return str(loc)


def run_one(ob):
    try:
        r = ob.fn(*ob.args)
    except Exception as e:      # an analysis failure is never an alarm
        r = {"status": "open", "detail": "analysis stopped: %s: %s" % (type(e).__name__, str(e)[:300]),
             "trace": traceback.format_exc()[-1500:]}
    if isinstance(r, dict):
        r = [r]
    for x in r:
        x.setdefault("key", ob.key)
        x["loc"] = relloc(x.get("loc"))
    return r


def run_all(obs, budget, jobs=None):
    """fork one process per obligation"""
    jobs = jobs or min(8, os.cpu_count() or 4)
    t_end = time.time() + budget
    todo = list(obs)[::-1]
    live = {}
    out = []
    while todo or live:
        while todo and len(live) < jobs:
            ob = todo.pop()
            if time.time() > t_end - 2:
                out.append({"key": ob.key, "status": "open", "detail": "time budget of the check used up", "loc": None})
                continue
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    res = pickle.dumps(run_one(ob))
                except BaseException as e:
                    res = pickle.dumps([{"key": ob.key, "status": "open", "detail": "analysis stopped: %r" % (e,), "loc": None}])
                with os.fdopen(w, "wb") as f:
                    f.write(res)
                os._exit(0)
            os.close(w)
            live[r] = [pid, ob, b"", time.time()]
        if not live:
            continue
        rd, _, _ = select.select(list(live), [], [], 0.5)
        for r in rd:
            d = os.read(r, 1 << 20)
            if d:
                live[r][2] += d
            else:
                pid, ob, buf, t0 = live.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                try:
                    res = pickle.loads(buf)
                except Exception:
                    res = [{"key": ob.key, "status": "open", "detail": "analysis process ended early", "loc": None}]
                for x in res:
                    x["wall"] = round(time.time() - t0, 2)
                out.extend(res)
        now = time.time()
        for r in list(live):
            pid, ob, buf, t0 = live[r]
            if now - t0 > ob.timeout or now > t_end:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                os.close(r)
                live.pop(r)
                out.append({"key": ob.key, "status": "open", "detail": "analysis time limit", "loc": None})
    order = {o.key: k for k, o in enumerate(obs)}
    out.sort(key=lambda x: (order.get(x["key"], 1 << 30), x["key"]))
    return out


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def finish(prop, tier, results, t0, level, rule, extra=None, analysed=None, assumptions=None):
    kf = [k for k in known_findings() if k["property"] == prop and k["status"] == "known"]
    viol, known = [], []
    for r in results:
        if r["status"] != "refuted":
            continue
        hit = None
        for k in kf:
            if fnmatch.fnmatchcase(r["key"], k["key"]):
                hit = k
                break
        (known if hit else viol).append((r, hit))
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    rdir = os.path.join(edir, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    for r, k in known:
        print("KNOWN-FINDING: property=%s %s [%s %s]" % (prop, k["what"], r["key"], r.get("loc") or ""))
    lines = []
    for n, (r, _) in enumerate(viol):
        rel = "evidence/replay/%s-%d.json" % (prop, n)
        json.dump(r, open(os.path.join(VERIF, rel), "w"), indent=1, default=str)
        print("  %s: %s  %s" % (r["key"], r.get("loc") or "", (r.get("detail") or "")[:400]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, os.path.join(VERIF, rel)))
    cnt = {}
    for r in results:
        cnt[r["status"]] = cnt.get(r["status"], 0) + 1
    decided = cnt.get("proved", 0)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
        "coverage": {
            "obligations": len(results),
            "discharged": decided,
            "explanation": rule,
            "detail": {
                "status": cnt,
                "analysed": analysed or {},
                "open": [{"key": r["key"], "why": r.get("detail")} for r in results if r["status"] == "open"][:60],
                "known_findings": [r["key"] for r, _ in known],
                "obligation_list": [{k: v for k, v in r.items() if k in ("key", "status", "loc", "leaves", "tested", "functions", "wall", "sites")}
                                    for r in results][:400],
            },
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if assumptions:
        ev["assumptions"] = assumptions
    if extra:
        ev["coverage"].update(extra)
    json.dump(ev, open(os.path.join(edir, prop + ".json"), "w"), indent=1, default=str)
    print("%s: %d obligations: %s (%.1f s)" % (prop, len(results), ", ".join("%d %s" % (v, k) for k, v in sorted(cnt.items())), time.time() - t0))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if viol else 0


class Tmp:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="boofsa-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
