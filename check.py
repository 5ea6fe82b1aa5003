"""usage: check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Deductive check of one property: the contracts of the functions it depends on are verified against the
current source (dv/), the lemmas over the contracts are discharged, and the same contracts are evaluated
at run time on seeded inputs (rt/), which supplies failing inputs and stands in, labelled bounded, for
functions that are out of the verifier's reach."""
import argparse
import importlib
import json
import os
import sys
import signal
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "dv"), HERE]
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")

import registry                     # noqa: E402
import rtrun                        # noqa: E402

FINDINGS = os.path.join(HERE, "known-findings.txt")


def known(prop):
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if line.startswith("finding: ") and f"property={prop} " in line:
                w = line.split()
                fid = [x for x in w if x.startswith("id=")][0][3:]
                out[fid] = line.strip().split("id=" + fid, 1)[1].strip()
    return out


def slim(res):
    """results without solver terms"""
    return {n: dict(r, obls=[(o.fn, o.kind, o.text, bool(o.ok), o.secs, o.cls, getattr(o, "goal", None), getattr(o, "hyps", None)) for o in r["obls"]],
                    inlined=sorted(r["inlined"]), by_contract=sorted(r["by_contract"])) for n, r in res.items()}


class Obl:
    def __init__(self, t):
        self.fn, self.kind, self.text, self.ok, self.secs, self.cls, self.goal, self.hyps = t


def fail(names, why):
    return {n: dict(status="unsupported", obls=[], reason=why, secs=0, inlined=set(), by_contract=set()) for n in names}


def run_proofs(P, tier, limit, send, only):
    """verifies one unit; send(unit number, results, final?) after every round"""
    t_end = time.time() + limit
    for i, u in enumerate(P["units"]):
        if i != only:
            continue
        left = max(20, t_end - time.time())
        prog = lambda res, i=i: send((i, slim(res), False))
        try:
            if u["kind"] == "cpp":
                from cfront import verify_unit
                m, a = u["spec"].split(":")
                cs = getattr(importlib.import_module(m), a)
                cs = [c for c in cs if u["names"] is None or c.name in u["names"]]
                res = verify_unit(os.path.join(REPO, u["path"]), cs, budget=left, want=("double", "float"), deadline=t_end,
                                  retry=150 if tier == "quick" else None, progress=prog)
            else:
                from pyfront import verify_py
                res = verify_py(REPO, u, budget=left, deadline=t_end)
        except Exception as x:
            if os.environ.get("DV_DEBUG"):
                raise
            res = fail(u["exported"], f"{type(x).__name__}: {str(x)[:300]}")
        send((i, slim(res), True))


def run_lemmas(P, limit):
    if not P["lemmas"]:
        return []
    import lemmas
    from cfront import run_jobs
    names = list(P["lemmas"])

    def job(n):
        def go():
            t = time.time()
            o = lemmas.LEMMAS[n]()
            for x in o:
                x.goal = None if getattr(x, "goal", None) is None else str(x.goal)[:2000]
                x.hyps = None
            return dict(obls=o, secs=time.time() - t, status="ok")
        return go
    return list(zip(names, run_jobs([job(n) for n in names], limit)))


def obl_record(path, n, bad):
    return dict(function=n, file=path, obligations=[dict(kind=o.kind, text=o.text, where=o.fn, goal=o.goal, hyps=o.hyps) for o in bad])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop, P = a.prop, registry.PROPS[a.prop]
    for u in P["units"]:
        if u["exported"] is None:
            m, l = u["spec"].split(":")
            u["exported"] = [c().name for c in getattr(importlib.import_module(m), l)]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev_dir, "replay"), exist_ok=True)

    if a.replay:
        rec = json.load(open(a.replay))
        if "input" not in rec:
            print(json.dumps(rec, indent=1)[:6000])
            return 1
        r = rtrun.evaluate(prop, a.tier, seed, 120, asan=P.get("asan", False), replay=os.path.abspath(a.replay))
        print(json.dumps(r, indent=1)[:6000])
        return 1 if r["failures"] else 0

    quick = a.tier == "quick"
    rt_secs = P.get("rt_quick", 20) if quick else P.get("rt_thorough", 240)
    from multiprocessing import get_context
    from multiprocessing.connection import wait
    ctx = get_context("fork")

    def spawn(fn):
        rx, tx = ctx.Pipe(False)

        def go():
            os.setsid()
            rx.close()
            try:
                fn(tx.send)
            finally:
                tx.close()
        p = ctx.Process(target=go)
        p.start()
        tx.close()
        return p, rx

    def rt(send):
        try:
            r = rtrun.evaluate(prop, a.tier, seed, rt_secs, asan=P.get("asan", False), parallel=3 if quick else 4)
        except Exception as x:
            r = dict(cases=0, kinds={}, failures=[], findings={}, errors=[f"{type(x).__name__}: {x}"])
        send(r)

    limit = P.get("limit", 420) if quick else 3000

    def lemma_job(send):
        send(("lemmas", [(n, None if r is None else dict(r, obls=[(o.fn, o.kind, o.text, bool(o.ok), o.secs, o.cls, getattr(o, "goal", None), None) for o in r["obls"]]))
                         for n, r in run_lemmas(P, 240)], True))
    procs = {"rt": spawn(rt), "lemmas": spawn(lemma_job)}
    for i in range(len(P["units"])):
        procs[f"prove{i}"] = spawn(lambda send, i=i: run_proofs(P, a.tier, limit, send, i))
    rtres, got, done, lem = None, {}, set(), None
    stop_at = None
    while procs:
        for r in wait([x[1] for x in procs.values()], timeout=2):
            name = [k for k, v in procs.items() if v[1] is r][0]
            try:
                m = r.recv()
            except EOFError:
                procs.pop(name)[0].join()
                continue
            if name == "rt":
                rtres = m
                if m["failures"]:
                    stop_at = time.time() + 30      # a failing input decides; let the provers name an obligation if they can
            elif m[0] == "lemmas":
                lem = m[1]
            else:
                got[m[0]] = m[1]
                if m[2]:
                    done.add(m[0])
        for name in [k for k in procs if k != "rt"] if stop_at and time.time() > stop_at else ():
            try:
                os.killpg(procs[name][0].pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            procs.pop(name)[0].join()
    rtres = rtres or dict(cases=0, kinds={}, failures=[], findings={}, errors=["run-time harness died"])
    proofs, log = [], []
    for i, u in enumerate(P["units"]):
        res = got.get(i) or fail(u["exported"], "stopped, a failing input was found" if rtres["failures"] else "no answer")
        for r in res.values():
            r["obls"] = [Obl(t) for t in r["obls"]]
        proofs.append((u, res))
        for n, r in res.items():
            log.append(f"{u['path']}: {n}: {r['status']} {r['reason']} ({len(r['obls'])} obligations, {r['secs']:.1f} s)")
    if lem is None:
        lem = [(n, None) for n in P["lemmas"]]
    lem = [(n, None if r is None else dict(r, obls=[Obl(t) for t in r["obls"]])) for n, r in lem]

    kf = known(prop)
    extra_rt = 0
    violations, undecided, funcs, obl_n, obl_ok, solver = [], [], [], 0, 0, 0.0
    seen_obl = set()
    cls = set(P["classes"]) | {"vacuity", "inv"}
    relevant = lambda o: o.cls in cls or o.kind == "precondition" and "race" not in cls
    for u, res in proofs:
        need, todo = set(), list(u["exported"])
        while todo:
            n = todo.pop()
            if n in need or n not in res:
                continue
            need.add(n)
            todo += list(res[n]["by_contract"])
        for n, r in res.items():
            if n not in need:
                continue
            key = (u["path"], n)
            rel = [o for o in r["obls"] if relevant(o)]
            if key not in seen_obl:
                seen_obl.add(key)
                obl_n += len(rel)
                obl_ok += sum(1 for o in rel if o.ok)
                solver += r["secs"]
                funcs.append(dict(function=n, file=r.get("path", u["path"]), status=r["status"], obligations=len(rel), seconds=round(r["secs"], 1),
                                  inlined=sorted(r["inlined"]), callees_by_contract=sorted(r["by_contract"]), note=r["reason"]))
            bad = [o for o in rel if not o.ok]
            if n not in u["exported"] and not any(o.cls == "race" for o in bad):
                continue
            if r["status"] in ("failed", "unsupported") and bad:
                violations.append(obl_record(r.get("path", u["path"]), n, bad))
            elif r["status"] in ("unsupported", "absent"):
                # out of reach; a contract of a callee that fails still counts
                helpers = [(h, [o for o in x["obls"] if relevant(o) and not o.ok]) for h, x in res.items() if x["status"] == "failed" and h not in u["exported"]]
                helpers = [x for x in helpers if x[1]]
                for h, b in helpers:
                    violations.append(obl_record(res[h].get("path", u["path"]), h, b))
                if not helpers:
                    undecided.append(f"{u['path']}: {n}: {r['reason'] or r['status']}" + (f" (open: {bad[0].text})" if bad else ""))
    for nm, r in lem:
        if r is None or r.get("status") != "ok":
            undecided.append(f"lemma {nm}: " + ("no answer" if r is None else r.get("reason", "")))
            continue
        obl_n += len(r["obls"])
        obl_ok += sum(1 for o in r["obls"] if o.ok)
        solver += r["secs"]
        for o in r["obls"]:
            if not o.ok:
                violations.append(dict(function=f"lemma {nm}", file="dv/lemmas.py", obligations=[dict(kind=o.kind, text=o.text, where=o.fn, goal=o.goal)]))

    if violations and not rtres["failures"] and not rtres.get("build_error"):
        # look longer for a failing input before reporting an obligation without one
        extra_rt = 90 if quick else 300
        try:
            more = rtrun.evaluate(prop, a.tier, seed + 7919, extra_rt, asan=P.get("asan", False), parallel=8)
            rtres = dict(rtres, cases=rtres["cases"] + more["cases"], failures=more["failures"], errors=rtres["errors"] + more["errors"])
        except Exception as x:
            rtres["errors"].append(f"{type(x).__name__}: {x}")
    for fid, text in kf.items():
        if rtres["findings"].get(fid):
            print(f"KNOWN-FINDING: property={prop} {text}")
    bad_rt = rtres["failures"]
    status = 0
    if bad_rt or violations:
        status = 1
        path = os.path.join(ev_dir, "replay", f"{prop}.json")
        rec = dict(property=prop, obligations=violations)
        if bad_rt:
            rec.update(kind=bad_rt[0]["kind"], input=bad_rt[0]["input"], message=bad_rt[0]["message"], log=bad_rt[0].get("log", ""), more=[f["message"] for f in bad_rt[1:6]])
        rec["verifier_output"] = log
        rec["replay_cmd"] = f"python3-vt check.py {prop} --replay {path}"
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        for v in violations:
            for o in v["obligations"][:4]:
                print(f"failed obligation: {v['file']}: {v['function']}: {o['kind']}: {o['text']}")
        for f_ in bad_rt[:4]:
            print(f"failing input ({f_['kind']}): {f_['message'][:300]}")
        print(f"VIOLATION property={prop} replay={path}" + ("" if bad_rt else " no-failing-input-found"))
    elif rtres["cases"] == 0 and undecided:
        print("NO ANSWER: " + "; ".join(undecided + rtres["errors"])[:2000])
        status = 2
    elif rtres.get("build_error"):
        print("NO ANSWER: the tree does not build: " + rtres["errors"][0][:1500])
        status = 2
    for x in undecided:
        print("bounded stand-in only:", x[:400])
    for x in rtres["errors"][:3]:
        print("run-time harness:", x[:400])
    proved = not undecided and obl_n > 0
    ev = dict(property=prop, tier=a.tier, seed=seed, level="proof" if proved else "exploration",
              coverage=dict(obligations=obl_n, discharged=obl_ok,
                            checker_cmd=f"python3-vt check.py {prop} --tier {a.tier} (dv/ verification condition generator, back end z3)",
                            trusted_base=registry.TRUSTED + P.get("trusted", []), functions_under_contract=funcs, solver_seconds=round(solver, 1),
                            out_of_reach_bounded_only=undecided,
                            bounded=dict(what="run-time contracts evaluated on seeded inputs against a fresh build; bounded, not counted as proved",
                                         cases=rtres["cases"], by_kind=rtres["kinds"], seconds=rt_secs + extra_rt, errors=rtres["errors"][:5])),
              assumptions=P["assume"], wall_s=round(time.time() - t0, 1), violations=len(bad_rt) + sum(len(v["obligations"]) for v in violations))
    if not proved:
        ev["coverage"].update(evaluations=rtres["cases"], distinct_nontrivial=rtres["cases"], rule="seeded generator of rt_%s.py; every case is a non-empty input" % prop.lower(),
                              samples=[f["function"] for f in funcs][:3])
    with open(os.path.join(ev_dir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {obl_ok}/{obl_n} obligations discharged in {len(funcs)} functions, {rtres['cases']} run-time cases, {time.time() - t0:.0f} s, "
          + ("proved" if proved and not status else "violated" if status == 1 else "undecided parts: %d" % len(undecided)))
    return status


if __name__ == "__main__":
    sys.exit(main())
