"""usage: run.py PROPERTY TIER SEED SECONDS WORKDIR [REPLAY.json]
Evaluates check(case) for the cases of rt module PROPERTY until the time is used up; the case under
evaluation is written to WORKDIR/current.json first, so that a crash is attributed to its input."""
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np                                     # noqa: E402
from base import Bad, plain                            # noqa: E402
import warnings                                        # noqa: E402
warnings.simplefilter("ignore")
import logging                                         # noqa: E402
logging.disable(logging.CRITICAL)


def main():
    prop, tier, seed, secs, work = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    m = importlib.import_module("rt_" + prop.lower())
    out = dict(cases=0, kinds={}, failures=[], findings={}, errors=[])
    cur = os.path.join(work, "current.json")
    res = os.path.join(work, "rt.json")

    def save():
        with open(res + ".t", "w") as f:
            json.dump(out, f)
        os.replace(res + ".t", res)
    if len(sys.argv) > 6:
        r = json.load(open(sys.argv[6]))
        stream = [(r["kind"], r["input"])]
    else:
        stream = m.cases(tier, np.random.default_rng(seed))
    t0 = time.time()
    save()
    for fid, fn in getattr(m, "FINDINGS", {}).items():
        try:
            out["findings"][fid] = bool(fn())
        except Exception as e:
            out["findings"][fid] = False
    save()
    last = first = time.time()
    failed = {}
    sites = {}
    min_cases = getattr(m, "MIN_CASES", 0)
    for kind, inp in stream:
        if time.time() - t0 > secs or out["failures"] and time.time() > first + 4:
            break
        first = time.time() if not out["failures"] else first
        inp = plain(inp)
        with open(cur, "w") as f:
            json.dump(dict(kind=kind, input=inp), f)
        try:
            np.random.seed(0)
            getattr(m, "check_" + kind)(**inp)
        except Bad as e:
            if failed.get(kind, 0) < 2:
                out["failures"].append(dict(kind=kind, input=inp, message=str(e)))
                save()
            failed[kind] = failed.get(kind, 0) + 1
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = any("longitudinal_tomography" in f.filename for f in tb)
            msg = f"{type(e).__name__}: {e} (at {os.path.basename(tb[-1].filename)}:{tb[-1].lineno})"
            if isinstance(e, (TypeError, AttributeError, ImportError)) and not inrepo:
                # the interface is not the one the harness knows: no verdict from this case
                if len(out["errors"]) < 5:
                    out["errors"].append(f"{kind}: {msg}")
            elif failed.get(kind, 0) < 2:
                out["failures"].append(dict(kind=kind, input=inp, message=f"unexpected error {msg}"))
                failed[kind] = failed.get(kind, 0) + 1
        out["cases"] += 1
        out["kinds"][kind] = out["kinds"].get(kind, 0) + 1
        if time.time() - last > 1:
            save()
            last = time.time()
    out["done"] = True
    out["secs"] = time.time() - t0
    save()


main()
