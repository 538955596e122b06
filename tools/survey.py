"""survey.py CHECK PROP [--seed N] [--tier T] [--match SUBSTR]: runs every case of an enumeration (not stopping at the first failure) and groups the failures"""
import argparse, importlib, json, os, signal, sys, warnings
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import core

ap = argparse.ArgumentParser()
ap.add_argument("check"); ap.add_argument("prop"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--tier", default="quick"); ap.add_argument("--match", default="")
ap.add_argument("--shrink", action="store_true")
a = ap.parse_args()
warnings.simplefilter("ignore")
mod = importlib.import_module("checks." + a.check.lower())
prop = {p.name: p for p in mod.PROPS}[a.prop]
prop.timeout = prop.timeout and min(prop.timeout, 60)


def one(case):
    import time
    t = time.time()
    try:
        core.run_case(prop, core.to_plain(case), core.Recorder())
        return case, None, "", time.time() - t
    except core.Violation as e:
        msg = str(e)
        if a.shrink and not isinstance(e, core.Timeout):
            case, msg = core.greedy_shrink(prop, case, msg, 20)
        return case, "V", msg, time.time() - t
    except core.HarnessError as e:
        return case, "H", str(e), time.time() - t


if __name__ == "__main__":
    cases = [c for c in prop.cases(a.tier, a.seed) if a.match in json.dumps(c)]
    bad = 0
    with mp.Pool(8, maxtasksperchild=50) as pool:
        for case, kind, msg, dt in pool.imap_unordered(one, cases):
            if kind or dt > 10:
                bad += bool(kind)
                print(kind, round(dt, 1), json.dumps(case)); print("     ", (msg.split("\n")[0][:200] + " ... " + " / ".join(x.strip() for x in msg.strip().split("\n")[-3:])[:300]) if kind else "slow"); sys.stdout.flush()
    print(len(cases), "cases", bad, "failures")
