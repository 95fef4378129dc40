"""bin/check <property>: decide one property of the code in /repo against the TLA+ specification."""
import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from core import *
import plans


def known_findings():
    res = []
    with open(os.path.join(VERIF, "known-findings.jsonl")) as f:
        for l in f:
            if l.strip():
                res.append(json.loads(l))
    return res


def main(pid, tier=None):
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sc = Scratch()
    try:
        bd = build(sc)
        drv = Driver(sc, bd)
        ctx = plans.Ctx(sc, drv, tier, seed, pid)
        plans.PLANS[pid](ctx)
        return finish(ctx, t0)
    except MachineryError as e:
        print("MACHINERY-ERROR %s: %s" % (pid, e))
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            sc.close()
        else:
            print("scratch", sc.dir)


def finish(ctx, t0):
    pid = ctx.pid
    known = [k for k in known_findings() if k.get("status") == "known" and k["property"] == pid]
    hit, viol = {}, []
    for v in ctx.violations:
        m = [k for k in known if k["module"] == v["module"] and v["clause"] in k["clauses"]
             and all(v["scenario"].get(a) == b for a, b in k.get("match", {}).items())]
        if m:
            hit.setdefault(m[0]["id"], []).append(v)
        else:
            viol.append(v)
    for k in known:
        if k["id"] in hit:
            print("KNOWN-FINDING: property=%s %s (%d recorded behaviours)" % (pid, k["what"], len(hit[k["id"]])))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "evidence", "replay")
    if viol:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, pid + ".jsonl")
        with open(path, "w") as f:
            for v in viol[:200]:
                f.write(json.dumps(v) + "\n")
        cl = {}
        for v in viol:
            cl[v["module"] + ":" + v["clause"]] = cl.get(v["module"] + ":" + v["clause"], 0) + 1
        print("broken clauses: " + ", ".join("%s x%d" % x for x in sorted(cl.items())))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    ev = dict(property=pid, tier=ctx.tier, seed=ctx.seed, level="model_checking",
              coverage=dict(states=TLC_STATS["distinct"], transitions=TLC_STATS["states"],
                            traces_validated_against_impl=ctx.ntraces, samples=ctx.samples[:4],
                            parts=ctx.parts, tlc_runs=TLC_STATS["runs"]),
              assumptions=plans.ASSUME.get(pid, []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d behaviours validated, %d TLC states, %.1f s -> %s" % (
        pid, ctx.tier, ctx.ntraces, TLC_STATS["distinct"], time.time() - t0, "VIOLATED" if viol else "held"))
    return 1 if viol else 0


if __name__ == "__main__":
    try:
        sys.exit(main(*sys.argv[1:3]))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
