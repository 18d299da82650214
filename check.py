#!/usr/bin/env python3
"""check.py <property> : decide one property of /repo's current tree. See DESIGN.md."""
import json, os, shutil, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import kani_engine as K
import verus_engine as V
from props import PROPS, COMMON_TRUST

VERIF = K.VERIF


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = PROPS[pid]
    t0 = time.time()
    os.makedirs(K.BUILD, exist_ok=True)
    d = os.path.join(K.BUILD, pid)
    target = os.path.join(K.BUILD, pid + "_target")
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    replay_path = os.path.join(rdir, pid + ".txt")
    if os.path.exists(replay_path):
        os.remove(replay_path)

    # Engine V: contracts on the extracted functions, discharged by Verus/Z3 (no bound at all).
    pool = ThreadPoolExecutor(1)
    vrun = pool.submit(V.run, p.get("verus", []), os.path.join(K.BUILD, pid + "_verus"), pid)

    # Engine K: contract harnesses on the crate, discharged by Kani/CBMC.
    hs = [h for h in p["harnesses"] if tier == "thorough" or not h.get("thorough")]
    res, attach, slow = {}, p["attach"], []
    if hs:
        K.make_crate(d, attach)
        log = os.path.join(K.BUILD, pid + ".kani.log")
        jobs = int(os.environ.get("VERIF_JOBS", "8"))
        budget = 640 if tier == "quick" else 3000
        names = [n for h in hs for n in h.get("split", [h["name"]])]
        res, _ = K.run(d, target, names, jobs, budget, log)
        # A loop that runs longer than on the reference tree is not a violation: raise the bound.
        again = [r.name for r in res.values() if r.status == "undecided" and r.reason.startswith("unwinding")]
        if again and time.time() - t0 < 500:
            more, _ = K.run(d, target, again, jobs, int(800 - (time.time() - t0)), log + ".2", ["--unwind", "24"])
            for n, r in more.items():
                if r.status in ("proved", "violated", "vacuous"):
                    res[n] = r
        # Contracts that are decided case by case: as a whole where that gave no answer.
        for h in hs:
            if "split" in h:
                res[h["name"]] = K.merge(h["name"], [res.pop(n) for n in h["split"]])
        again = [h["name"] for h in hs if "split" in h and res[h["name"]].status in ("undecided", "vacuous")]
        if again and time.time() - t0 < 500:
            print("  K (not split: %s)" % "; ".join(n + ": " + res[n].reason[:200] for n in again))
            slow = again
            more, _ = K.run(d, target, again, 2, int(850 - (time.time() - t0)), log + ".3", ["--features", "slow"])
            # Without the cases nothing else of the harnesses' file changes.
            res.update(more)
            lost = [n for n, r in res.items() if r.status == "missing" and n not in again]
            if lost:
                more, _ = K.run(d, target, lost, jobs, int(850 - (time.time() - t0)), log + ".4", ["--features", "slow"])
                res.update(more)

    vres = vrun.result()
    for r in list(res.values()):
        print("  K %-34s %-9s %4d/%-4d checks %6.1fs %s" % (r.name, r.status, r.ok, r.checks, r.seconds, r.reason[:150]))
    for o in vres:
        print("  V %-34s %-9s %6.1fs %s" % (o["name"], o["status"], o["seconds"], o["reason"][:150]))

    byname = {h["name"]: h for h in hs}
    violated = [r for r in res.values() if r.status == "violated"]
    undecided = [r for r in res.values() if r.status not in ("proved", "violated")]
    vfail = [o for o in vres if o["status"] == "failed"]
    vundec = [o for o in vres if o["status"] == "undecided"]

    code, violations, tail = 0, 0, ""
    if violated:
        code, violations = 1, len(violated)
        tail = decide_replay(pid, p, violated, byname, d, target, attach, replay_path, t0, slow)
    elif vfail and not covered_by(p, vfail, res):
        code, violations = 1, len(vfail)
        tail = " no-failing-input-found"
        with open(replay_path, "w") as fh:
            fh.write("Property %s: %s\nFailed obligation(s), Verus:\n" % (pid, p["title"]))
            for o in vfail:
                fh.write("\n== %s\n%s\n" % (o["name"], o["output"]))
    elif undecided:
        code = 2
    # An obligation of V that got no answer (extraction, solver limit) leaves the property to K alone.
    if not hs and vundec and not code:
        code = 2

    kc = sum(r.checks for r in res.values())
    ko = sum(r.ok for r in res.values())
    vo = sum(o["obligations"] for o in vres)
    vd = sum(o["obligations"] for o in vres if o["status"] == "proved")
    bounded = [dict(harness=h["name"], bound=h["bound"]) for h in hs if h.get("bound")]
    ev = dict(
        property=pid, tier=tier, seed=seed, level="proof", wall_s=round(time.time() - t0, 1), violations=violations,
        assumptions=COMMON_TRUST["assumptions"] + p.get("assumptions", []),
        coverage=dict(
            obligations=kc + vo, discharged=ko + vd,
            checker_cmd="cd %s && python3 check.py %s" % (VERIF, pid),
            trusted_base=COMMON_TRUST["trusted_base"] + p.get("trusted", []),
            functions_under_contract=p["functions"],
            kani=dict(
                backend="Kani 0.68.0 / CBMC 6.11.0 / MiniSat",
                contracts=[dict(harness=r.full, status=r.status, checks=r.checks, discharged=r.ok, solver_s=round(r.seconds, 2),
                                covers_reached=sum(r.covers.values()), covers=len(r.covers),
                                complete=not byname[r.name].get("bound"), bound=byname[r.name].get("bound", "")) for r in res.values()],
                bounded_stand_ins=bounded),
            verus=dict(
                backend="Verus 0.2026.09.13 / Z3",
                contracts=[{k: o[k] for k in ("name", "status", "obligations", "seconds", "reason")} for o in vres],
                extraction=V.notes()),
        ))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if os.environ.get("VERIF_KEEP") is None:
        for x in (d, target, target + "_pb", d + "_verus", d + "_verus_src"):
            shutil.rmtree(x, ignore_errors=True)
    if code == 1:
        print("VIOLATION property=%s replay=%s%s" % (pid, replay_path, tail))
    elif code == 0:
        print("OK property=%s: %d of %d obligations discharged (%.0f s)" % (pid, ko + vd, kc + vo, time.time() - t0))
    else:
        print("UNDECIDED property=%s" % pid)
        for r in undecided:
            print("   %s: %s" % (r.name, r.reason))
    sys.exit(code)


def covered_by(p, vfail, res):
    """Is every failed obligation of V also decided, completely, by a contract that K proved?

    (The same postcondition proved for all inputs by the other back end means that the Verus failure is
    a proof that needs repair, not a broken property.)"""
    for o in vfail:
        twins = o.get("twins") or []
        if not twins or any(t not in res or res[t].status != "proved" for t in twins):
            return False
    return True


def decide_replay(pid, p, violated, byname, d, target, attach, path, t0, slow):
    """Replay the counterexample natively; returns the tail of the VIOLATION line."""
    with open(path, "w") as fh:
        fh.write("Property %s: %s\n" % (pid, p["title"]))
        for r in violated:
            fh.write("\nContract %s failed (Kani/CBMC):\n" % r.full)
            for c in r.failed[:8]:
                l = c.get("location", {})
                fh.write("  %s  [%s:%s in %s]\n" % (c["description"], l.get("file"), l.get("line"), c.get("function")))
    violated = sorted(violated, key=lambda r: r.seconds)
    for r in violated[:2]:
        left = 800 - (time.time() - t0)
        if left < 60 or r.seconds * 1.5 > left - 60:
            continue
        extra = ["--features", "slow"] if r.name in slow else []
        tests = K.counterexample(d, target, r.full, int(left - 50), os.path.join(K.BUILD, pid + ".cex.log"), extra)
        if not tests:
            continue
        left = 870 - (time.time() - t0)
        if left < 40:
            break
        hfile = byname[r.name].get("file") or p["attach"][0][1]
        ok, out = K.replay(d, target, attach, hfile, tests, os.path.join(K.BUILD, pid + ".replay.log"), timeout=int(left - 10), extra=extra)
        with open(path, "a") as fh:
            if ok:
                fh.write("\nCounterexample of %s, replayed natively (the test panics):\n\n" % r.full)
                fh.write("\n".join(t for t in tests if ok in t) + "\n\n" + out + "\n")
                return ""
            fh.write("\nCounterexample of %s did not reproduce natively:\n\n%s\n%s\n" % (r.full, "\n".join(tests), out))
    with open(path, "a") as fh:
        fh.write("\nno-failing-input-found: the failed obligations are named above.\n")
    return " no-failing-input-found"


if __name__ == "__main__":
    main()
