#!/usr/bin/env python3
"""run.py <property> [quick|thorough]"""
import importlib
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.common import *


def main():
    if os.environ.get("PYTHONHASHSEED") != "0":      # the same order of case splits on every run
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    mod = importlib.import_module("checks." + prop.lower())
    budget = 420 if tier == "quick" else 780
    ws = {}
    errs = []
    with Tmp() as tmp:
        for d in getattr(mod, "DRIVERS", []):
            try:
                from checks.imgops import world
                ws[d] = world(d, tmp)
            except Exception as e:
                ws[d] = None
                errs.append({"key": "frontend/" + d, "status": "open", "detail": "front end: %s" % str(e)[:600], "loc": None})
        try:
            obs = mod.obligations({k: v for k, v in ws.items()}, tier)
        except Exception as e:
            if not errs:
                import traceback
                errs.append({"key": "obligations", "status": "open", "detail": traceback.format_exc()[-800:], "loc": None})
            obs = []
        only = os.environ.get("ONLY")
        if only:
            obs = [o for o in obs if only in o.key]
        res = errs + run_all(obs, budget - (time.time() - t0))
    if os.environ.get("VERBOSE"):
        for r in res:
            print("%-9s %-50s %6s %s" % (r["status"], r["key"], r.get("wall", ""), (r.get("detail") or "")[:int(os.environ["VERBOSE"])]))
    sys.exit(finish(prop, tier, res, t0, getattr(mod, "LEVEL", "other"), mod.RULE, analysed=getattr(mod, "ANALYSED", None),
                    assumptions=getattr(mod, "ASSUMPTIONS", None)))


main()
