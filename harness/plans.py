"""Which specification modules decide which property, and with which bounds in which tier."""
import json, os
from core import *

PLANS, ASSUME = {}, {}
TECH = {"": "scenarios generated from the specification are replayed into the real code and every recorded result is "
            "judged by TLC against the value the specification computes"}
NOTE = {"": "Every recorded behaviour of the real code is decided by TLC against an executable TLA+ definition evaluated "
            "with 28-digit arithmetic; exploration of the input space is bounded by the scenarios of the tier. Trusts "
            "TLC, the decimal encoding of doubles and the stated tolerances."}


def plan(pid):
    def deco(f):
        PLANS[pid] = f
        return f
    return deco


# modules in whose behaviours every third scenario passes whole numbers as ints and integer arrays
INTS = {"C%02d" % j for j in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 22)}


class Ctx:
    def __init__(self, sc, drv, tier, seed, pid):
        self.sc, self.drv, self.tier, self.seed, self.pid = sc, drv, tier, seed, pid
        self.violations, self.parts, self.samples, self.ntraces = [], [], [], 0
        self.thorough = tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def conform(self, module, n, consts=None, timeout=60, inv=(), jtimeout=800):
        """scenarios of <module>.tla -> real code -> verdicts of <module>.tla"""
        t0 = time.time()
        c = dict(consts or {})
        c.update(Seed=self.seed, NScn=n, TraceFile="")
        scns = gen(self.sc, module, c, inv=inv, init="GInit", nxt="GNext")
        t1 = time.time()
        self.replay(module, scns, c, timeout, t0, t1, jtimeout)

    def replay(self, module, scns, c, timeout=60, t0=None, t1=None, jtimeout=800, label=None):
        t0 = t0 or time.time()
        t1 = t1 or t0
        if not scns:
            raise MachineryError("no scenarios from " + module)
        if module in INTS:          # how numbers are handed over is not part of their meaning
            scns = [dict(s, ints=1) if j % 3 == 2 else s for j, s in enumerate(scns)]
        if os.environ.get("VERIF_PART"):        # development only: every n-th scenario
            scns = scns[::int(os.environ["VERIF_PART"])]
        if not self.thorough and self.drv.stop_at is None:
            self.drv.stop_at = time.time() + 450
        obs = self.drv.run(scns, timeout=timeout)
        scns, obs = [s for s, o in zip(scns, obs) if o], [o for o in obs if o]
        if not scns:
            if not self.ntraces:
                raise MachineryError("no scenario of %s was executed in time" % module)
            return
        t2 = time.time()
        traces = []
        for s, o in zip(scns, obs):
            if o["st"] == "ok":
                res = o["res"]
            else:
                res = [dict(st=o["st"], ex=o.get("ex", ""), sh=[], v=[], mut=0) for _ in s["steps"]]
            for r in res:
                r.pop("msg", None)
            traces.append(dict(s, res=res))
        c = dict(c)
        bad = judge(self.sc, module, traces, c, timeout=jtimeout)
        t3 = time.time()
        for j, cl in sorted(bad.items()):
            self.violations.append(dict(module=module, clause=cl, scenario=scns[j], observed=traces[j]["res"]))
        self.ntraces += len(traces)
        self.samples.append(dict(module=module, scenario=scns[0]))
        self.parts.append(dict(module=module, scenarios=len(scns), rejected=len(bad), gen_s=round(t1 - t0, 1),
                               impl_s=round(t2 - t1, 1), judge_s=round(t3 - t2, 1)))
        if os.environ.get("VERIF_DEBUG"):
            print(self.parts[-1])


@plan("C05")
def c05(x):
    x.conform("C05", x.n(320, 2000), dict(Deep=x.n(3, 5)))


@plan("C06")
def c06(x):
    x.conform("C06", x.n(320, 2000), dict(Deep=x.n(3, 5)))


@plan("C07")
def c07(x):
    x.conform("C07", x.n(280, 2000), dict(Deep=x.n(3, 6)))


@plan("C11")
def c11(x):
    x.conform("C11", x.n(1000, 4000), dict(Deep=x.n(100, 120)))


@plan("C08")
def c08(x):
    x.conform("C08", x.n(800, 3000), dict(Deep=x.n(25, 40)))


@plan("C09")
def c09(x):
    x.conform("C09", x.n(640, 3000), dict(Deep=x.n(18, 30)))


@plan("C10")
def c10(x):
    x.conform("C10", x.n(640, 3000), dict(Deep=x.n(6, 9)))


@plan("C12")
def c12(x):
    x.conform("C12", x.n(300, 6000), dict(Deep=x.n(4, 8)))


@plan("C13")
def c13(x):
    x.conform("C13", x.n(560, 6000), dict(Deep=x.n(7, 12)), timeout=20)


@plan("C14")
def c14(x):
    x.conform("C14", x.n(288, 1800), dict(Deep=x.n(4, 6)))


@plan("C15")
def c15(x):
    x.conform("C15", x.n(320, 4000), dict(Deep=x.n(9, 14)))


@plan("C16")
def c16(x):
    x.conform("C16", x.n(240, 2400), dict(Deep=24))


@plan("C17")
def c17(x):
    x.conform("C17", x.n(132, 1000), dict(Deep=1), timeout=200)


@plan("C18")
def c18(x):
    x.conform("C18", x.n(72, 900), dict(Deep=1), timeout=200)


@plan("C03")
def c03(x):
    x.conform("C03", x.n(360, 2700), dict(Deep=x.n(4, 8)))


@plan("C04")
def c04(x):
    x.conform("C04", x.n(180, 1800), dict(Deep=x.n(4, 7)), timeout=120)


@plan("C01")
def c01(x):
    x.conform("C01", x.n(404, 2006), dict(Deep=x.n(2, 3), NExh=x.n(4, 6), Long=x.n(12, 20)), inv=["Coherent"])


@plan("C02")
def c02(x):
    x.conform("C02", x.n(1200, 8000), dict(Deep=x.n(5, 9)))


@plan("C21")
def c21(x):
    x.conform("C21", x.n(500, 6000), dict(Deep=x.n(6, 12)))


@plan("C20")
def c20(x):
    x.conform("C20", x.n(480, 4000), dict(Deep=x.n(3, 5)))


@plan("C19")
def c19(x):
    x.conform("C19", x.n(60, 500), dict(Deep=x.n(2, 3), NExh=1, Long=x.n(3, 4)), inv=["Own", "Kept", "NewName"], timeout=200)


@plan("C22")
def c22(x):
    x.conform("C22", x.n(256, 1600), dict(Deep=x.n(4, 5)))
