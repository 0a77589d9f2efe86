"""C13 record files, C19 emission totals."""
import os
import random

import numpy as np

import oracles2 as O2
from props import Base, prop


@prop
class C13(Base):
    id = "C13"
    knobs = dict(rec=1.0, td=0.3)

    def extra(self, seed, tier):
        return dict(budget=[80, 400, 1200][seed % 3])

    def plan(self, seed, tier):
        p = Base.plan(self, seed, tier)
        r = p["s"]["rec"]
        if not any(r[k] for k in ("vl", "vr", "tl", "tr")):
            r["tl" if seed & 4 else "vr"] = 1
        if seed % 16 == 0:
            # (adaptive routing needs rec_tt = 1)
            r["tt" if p["s"]["routing"] == "Fixed" else "vol"] = 0
        return p

    def oracle(self, R, plan):
        return O2.records(R, R.root)


@prop
class C19(Base):
    id = "C19"
    knobs = dict(emis=1.0, labels=0.6, td=0.25)

    def extra(self, seed, tier):
        return dict(budget=[80, 400, 1200][seed % 3])

    def oracle(self, R, plan):
        a = R.d.print_emission_stats()
        v = O2.emission(R, a)
        if R.d.print_emission_stats() != a:
            v.append(("emitchange", "asking for the emission report changes it"))
        return v


@prop
class C17(Base):
    id = "C17"
    tree = True

    def extra(self, seed, tier):
        return dict(budget=[40, 200, 600][seed % 3],
                    routing=["Fixed", "Hybrid"] if seed % 2 == 0 else ["Biclass_Hybrid"])

    def plan(self, seed, tier):
        p = Base.plan(self, seed, tier)
        s = p["s"]
        r = random.Random("C17/%d" % seed)
        n = len(s["paths"])
        ids = list(range(n))
        p["full"] = r.random() < 0.5
        if not p["full"]:
            r.shuffle(ids)
            ids = ids[:r.randrange(1, n + 1)]
        p["paths"] = ids
        p["wins"] = [[r.random(), r.random()] for _ in range(r.choice([1, 3, 6]))]
        p["f"] = [r.choice([0.5, 1, 3, 7.25]) for _ in range(n * s["maxi"])]
        return p

    def execute(self, W, plan, root):
        self._p = [x for x in plan["paths"] if x < len(plan["s"]["paths"])]
        return Base.execute(self, W, plan, root)

    def paths(self, s):
        return np.array(self._p, np.int32)

    def oracle(self, R, plan):
        T = R.tr.T
        s = R.s
        n = len(s["paths"])
        wins = []
        for a, b in plan["wins"]:
            x = int(a * T)
            y = x + 1 + int(b * (T - x))
            wins.append((x, min(T, max(y, x + 1))))
        v = O2.dar(R, self._p, wins)
        if plan["full"] and not v and self._p == list(range(n)):
            wins = [(k * s["frq"], (k + 1) * s["frq"]) for k in range(s["maxi"])]
            wins = [w for w in wins if w[1] <= T]
            f = np.array((plan["f"] * 20)[:n * s["maxi"]], float)
            if wins:
                v += O2.dar_complete(R, wins, f, os.path.join(R.root, "dar_"))
        return v

    def shrink(self, plan):
        for p in Base.shrink(self, plan):
            if len(p["s"]["paths"]) == len(plan["s"]["paths"]):
                yield p
        if len(plan["wins"]) > 1:
            for i in range(len(plan["wins"])):
                q = dict(plan)
                q["wins"] = plan["wins"][:i] + plan["wins"][i + 1:]
                yield q


@prop
class C20(Base):
    id = "C20"
    knobs = dict(toll=0.6, td=0.3)

    def extra(self, seed, tier):
        return dict(budget=[40, 200, 800][seed % 3], n=[3, 4, 5, 6],
                    routing=["Adaptive", "Hybrid"] if seed % 2 == 0 else ["Adaptive", "Biclass_Hybrid"])

    def plan(self, seed, tier):
        p = Base.plan(self, seed, tier)
        a = p["s"]["ad"]
        a[0], a[1] = max(a[0], 0.5), max(a[1], 0.3)
        return p

    def oracle(self, R, plan):
        self.st = {}
        return O2.adaptive(R, self.st)

    def result(self, *a, **k):
        r = Base.result(self, *a, **k)
        r["st"].update(getattr(self, "st", {}))
        return r


@prop
class C21(Base):
    id = "C21"
    knobs = dict(toll=0.5, td=0)

    def extra(self, seed, tier):
        return dict(budget=[40, 200, 800][seed % 3], routing=["Hybrid"] if seed % 2 == 0 else ["Biclass_Hybrid"])

    def plan(self, seed, tier):
        p = Base.plan(self, seed, tier)
        s = p["s"]
        s["reg"] = None
        r = random.Random("C21/%d" % seed)
        n = len(s["paths"])
        ids = list(range(n))
        if r.random() < 0.5:
            r.shuffle(ids)
            ids = ids[:r.randrange(1, n + 1)]
        p["paths"] = ids
        p["starts"] = [r.random() for _ in range(r.choice([2, 4, 8]))]
        p["parts"] = [[r.randrange(n), r.randrange(3), r.choice([2, 3, 9])] for _ in range(3)]
        p["again"] = r.choice([1, 1, 2])
        p["cong"] = r.random() < 0.5
        p["best"] = [[r.randrange(n), r.random()] for _ in range(8)]
        if r.random() < 0.4:
            # costs are reported as whole numbers
            s["vot"] = r.choice([36000, 900000])
        return p

    def execute(self, W, plan, root):
        plan["paths"] = [x for x in plan["paths"] if x < len(plan["s"]["paths"])]
        self._p = plan["paths"]
        return Base.execute(self, W, plan, root)

    def paths(self, s):
        return np.array(self._p, np.int32)

    def oracle(self, R, plan):
        self.st = {}
        return O2.path_costs(R, plan, self.st)

    result = C20.result

    def shrink(self, plan):
        for p in Base.shrink(self, plan):
            if len(p["s"]["paths"]) == len(plan["s"]["paths"]):
                yield p
        for k in ("starts", "parts", "best", "paths"):
            if len(plan[k]) > 1:
                for i in range(len(plan[k])):
                    q = dict(plan)
                    q[k] = plan[k][:i] + plan[k][i + 1:]
                    yield q
