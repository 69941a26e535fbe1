#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree.

A property module gives units(p, tier) (independent parts) and run(R, p, unit, tier); every unit of
every configuration is analysed in a process of its own."""
import importlib
import multiprocessing
import os
import pickle
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
import report

LIMIT = {"quick": 150, "thorough": 900}


class TimeUp(BaseException):
    pass


def work(a):
    modname, prop, cfg, unit, tier = a
    mod = importlib.import_module(modname)
    from lib import program
    R = report.Report(prop, tier)
    R.cfg = cfg

    def al(*_):
        raise TimeUp()
    signal.signal(signal.SIGALRM, al)
    signal.alarm(getattr(mod, "LIMIT", LIMIT)[tier])
    t = time.time()
    try:
        (getattr(mod, "run_unit", None) or mod.run)(R, program(cfg), unit, tier)
    except TimeUp:
        R.undecided("%s:time" % unit, "time limit")
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            raise
        R.undecided("%s:internal" % unit, "analysis failure: %s" % "".join(traceback.format_exception_only(e)).strip()[:300])
    signal.alarm(0)
    if not R.obs:
        R.undecided("%s:nothing" % unit, "no obligation was generated")
    if os.environ.get("SA_TIMES"):
        print("  %s %s %.1fs" % (cfg, unit, time.time() - t), flush=True)
    return R.obs, R.counts, R.assumptions, R.functions


def main():
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    only = sys.argv[3:]
    modname = "props." + prop.lower()
    mod = importlib.import_module(modname)
    R = report.Report(prop, tier)
    cfgs = getattr(mod, "CONFIGS", report.CONFIGS)[tier]
    if not os.environ.get("SA_NODUMP"):
        report.dump(cfgs)
    from lib import program
    jobs = []
    for c in cfgs:
        p = program(c)
        R.cfg = c
        for u in mod.units(p, tier):
            if not only or u in only:
                jobs.append((modname, prop, c, u, tier))
    if os.environ.get("SA_DEBUG"):
        res = [work(j) for j in jobs]
    else:
        with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
            res = pool.map(work, jobs, chunksize=1)
    for obs, counts, assumptions, functions in res:
        R.obs += obs
        for k, v in counts.items():
            R.count(k, v)
        R.assumptions |= assumptions
        R.functions |= functions
    if hasattr(mod, "final") and not only:
        mod.final(R, [program(c) for c in cfgs], tier)
    sys.exit(report.finish(R, mod))


if __name__ == "__main__":
    main()
