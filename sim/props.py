"""One class per property: plan(seed) -> JSON-able plan; execute(plan) -> result."""
import copy
import gc
import hashlib
import os
import random

import numpy as np

import gen as G
import oracles as O
from world import World, Trace, FAULT, STEP_CAP

_W = None


def world():
    global _W
    if _W is None:
        import _macposts_ext
        import macposts
        _W = World(os.environ["SIM_SHIM"], _macposts_ext.__file__, _macposts_ext, macposts)
    return _W


PROPS = {}


def prop(cls):
    PROPS[cls.id] = cls()
    return cls


def state_hashes(tr, limit=48):
    """Distinct network states of a loading: the vector of queue lengths on all
    links with the released/finished counts (sampled evenly)."""
    n = tr.T
    idx = range(n) if n <= limit else [int(i * n / limit) for i in range(limit)]
    out = []
    for t in idx:
        out.append(int.from_bytes(hashlib.blake2b(
            tr.sizes[t].tobytes() + tr.counts[t].tobytes(), digest_size=6).digest(), "big"))
    return out


class Base:
    id = None
    knobs = {}
    kinds = ["dta", "mcdta"]
    tree = False
    heap_on = 1
    observe = 1
    budget = {"quick": 12000, "thorough": 60000}   # simulated runs
    wall = {"quick": 60, "thorough": 840}         # seconds of search
    cap = STEP_CAP

    # ---- plans
    def plan(self, seed, tier):
        kind = self.kinds[seed % len(self.kinds)]
        k = dict(self.knobs)
        k.update(self.extra(seed, tier))
        return {"s": G.gen("%s/%d" % (self.id, seed), kind, **k)}

    def extra(self, seed, tier):
        return {}

    # ---- execution
    def execute(self, W, plan, root):
        s = plan["s"]
        G.write(s, root)
        v = []
        W.begin(s["sim"], heap_on=self.heap_on, observe=self.observe, cap=self.cap)
        st = {}
        tr = None
        try:
            d = W.load(s, root, tree=self.tree, paths=self.paths(s))
        except Exception as e:
            v.append(("exception", "the run raised %s: %s" % (type(e).__name__, str(e)[:200])))
        else:
            tr = W.traces()[-1]
            R = O.Run(s, d, tr)
            R.root = root
            R.W = W
            try:
                v += self.oracle(R, plan)
            except Exception as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                v.append(("exception", "a query raised %s: %s (%s:%s)" % (type(e).__name__, str(e)[:200],
                                                                          os.path.basename(tb.filename), tb.name)))
            R.d = None
            del R
            del d
            gc.collect()
        bad = W.end()
        if bad:
            v.append(("heap", "heap damage: " + bad))
        return self.result(W, s, tr, v)

    def paths(self, s):
        return None

    def result(self, W, s, tr, v, **extra):
        st = W.stats()
        r = {"v": [{"kind": a, "msg": b} for a, b in v[:6]],
             "st": {"ticks": tr.T if tr is not None else 0, "veh": len(tr.births) if tr is not None else 0,
                    "sim_s": (tr.T if tr is not None else 0) * s["ut"], "rand": st["rand"], "news": st["news"],
                    "moves": len(tr.moves) if tr is not None else 0},
             "f": {},
             "h": hashlib.sha256(((tr.digest() if tr is not None else "-") + st["rhash"] + repr(v)).encode()).hexdigest()[:16],
             "states": state_hashes(tr) if tr is not None else [],
             "il": tr.digest() if tr is not None else "-"}
        r["tags"] = self.tags(s, tr)
        r.update(extra)
        return r

    def tags(self, s, tr):
        t = [s["kind"], "routing:" + s["routing"], "rand_policy:%d" % s["sim"]["pol"], "heap_policy:%d" % s["sim"]["heap"]]
        t += sorted(set("link:" + l["type"] for l in s["links"]))
        if s["td"]:
            t.append("td_attributes")
        if s["cyclic"]:
            t.append("cyclic")
        if tr is not None and len(tr.births) and (tr.T == 0 or tr.counts[-1][1] > 0):
            t.append("ended_with_vehicles")
        if tr is not None and tr.T and tr.sizes.size and tr.sizes[:, :, 0].max() > 0:
            t.append("queues_formed")
        return t

    def oracle(self, R, plan):
        raise NotImplementedError

    # ---- minimisation
    def shrink(self, plan):
        for s in shrink_scenario(plan["s"]):
            p = dict(plan)
            p["s"] = s
            yield p


def shrink_scenario(s):
    """Simpler scenarios, roughly in decreasing size of the cut."""
    def c():
        return copy.deepcopy(s)
    for key, val in (("td", None), ("tdad", None), ("labels", None), ("emis", [])):
        if s.get(key):
            t = c()
            t[key] = val
            yield t
    if s["sim"]["heap"] or s["sim"]["fill"]:
        t = c()
        t["sim"].update(heap=0, fill=0)
        yield t
    if s["sim"]["pol"]:
        t = c()
        t["sim"].update(pol=0)
        yield t
    if any(s["rec"][k] for k in ("vl", "vr", "tl", "tr")):
        t = c()
        t["rec"].update(vl=0, vr=0, tl=0, tr=0)
        yield t
    # demand
    n = len(s["demand"])
    if n > 1:
        for i in range(n):
            t = c()
            del t["demand"][i]
            yield t
    for i in range(n):
        for ci in (2, 3):
            if any(s["demand"][i][ci]):
                t = c()
                t["demand"][i][ci] = [0] * len(t["demand"][i][ci])
                yield t
                for j, x in enumerate(s["demand"][i][ci]):
                    if x:
                        t = c()
                        t["demand"][i][ci][j] = 0
                        yield t
                        if x > 2:
                            t = c()
                            t["demand"][i][ci][j] = int(x / 2)
                            yield t
    # horizon
    if s["maxi"] > 1:
        t = c()
        m = s["maxi"] - 1
        t["maxi"] = m
        for d in t["demand"]:
            d[2] = d[2][:m]
            d[3] = d[3][:m]
        for p in t["paths"]:
            p[1] = p[1][:m]
            p[2] = p[2][:m]
        if t["tdad"]:
            for q in t["tdad"]:
                q[2] = q[2][:m]
                q[3] = q[3][:m]
        if t["start"] < m:
            yield t
    # paths and links nobody needs
    ods = set((o, d) for o, d, _, _ in s["demand"])
    on = dict((b, a) for a, b in s["orig"])
    dn = dict((b, a) for a, b in s["dest"])
    for i, p in enumerate(s["paths"]):
        od = (on[p[0][0]], dn[p[0][-1]])
        same = [q for q in s["paths"] if (q[0][0], q[0][-1]) == (p[0][0], p[0][-1])]
        if od not in ods or len(same) > 1:
            t = c()
            del t["paths"][i]
            yield t
    used = set()
    for p in s["paths"]:
        used |= set(zip(p[0], p[0][1:]))
    onode = dict((a, b) for a, b in s["orig"])
    dnode = dict((a, b) for a, b in s["dest"])
    for i, l in enumerate(s["links"]):
        if (l["a"], l["b"]) in used or s["reg"] is not None and l["id"] in s["reg"]:
            continue
        rest = s["links"][:i] + s["links"][i + 1:]
        # every node keeps an incoming and an outgoing link, every OD pair stays connected
        nd = {x[0]: x[1] for x in s["nodes"]}
        ok = True
        for x, ty in nd.items():
            if ty != "DMOND" and not any(q["b"] == x for q in rest):
                ok = False
            if ty != "DMDND" and not any(q["a"] == x for q in rest):
                ok = False
        for o, d in ods:
            if not reach(rest, onode[o], dnode[d]):
                ok = False
        if ok:
            t = c()
            del t["links"][i]
            t["emis"] = [e for e in t["emis"] if e != l["id"]]
            yield t


def reach(links, a, b):
    seen, st = {a}, [a]
    while st:
        u = st.pop()
        for l in links:
            if l["a"] == u and l["b"] not in seen:
                seen.add(l["b"])
                st.append(l["b"])
    return b in seen


# =========================================================================
@prop
class C01(Base):
    id = "C01"

    def oracle(self, R, plan):
        return O.conservation(R)


@prop
class C02(Base):
    id = "C02"

    def oracle(self, R, plan):
        return O.curves(R)


@prop
class C03(Base):
    id = "C03"
    kinds = ["dta"]
    knobs = dict(start=True)

    def oracle(self, R, plan):
        return O.demand(R) + O.rounding(R)


@prop
class C04(Base):
    id = "C04"
    kinds = ["mcdta"]
    knobs = dict(start=True)

    def oracle(self, R, plan):
        return O.demand(R) + O.rounding(R)


def census(pr, seed, n, **k):
    """Thousands of vehicles of one OD pair and interval through an empty network, with uniform draws: shares and
    proportions can be told apart to a few per cent."""
    kind = pr.kinds[seed % len(pr.kinds)]
    k = dict(pr.knobs, no=[1, 2], nd=[1, 2], n=[3, 4], wide=0, pol=[0], td=0, budget=50, cyclic=0, **k)
    if "labels" in k:
        k["labels"] = 1.0
    s = G.gen("%s/census/%d" % (pr.id, seed), kind, **k)
    r = random.Random("census/%d" % seed)
    s["sim"]["pol"] = 0
    s["td"] = None
    s["total"] = -1
    for l in s["links"]:
        l["type"], l["lanes"] = "PQ", 1
        for q in ("cap", "cap_t", "rhoj", "rhoj_t"):
            if q in l:
                l[q] = 99999
    x = r.choice(s["demand"])
    a = r.randrange(s["maxi"])
    for q in s["demand"]:
        for c in (2, 3):
            q[c] = [0 for _ in q[c]]
    x[2][a] = int(n / s["scalar"])
    if x[3]:
        x[3][a] = int(n / s["scalar"])
    return {"s": s}


@prop
class C09(Base):
    id = "C09"

    def plan(self, seed, tier):
        if seed % 150 == 24 or seed % 150 == 99:
            mc = self.kinds[seed % 2] == "mcdta"
            p = census(self, seed, 6000, routing=["Biclass_Hybrid"] if mc else ["Fixed"])
            p["s"]["ad"] = [0, 0]
            p["s"]["tdad"] = None
            p["s"]["start"] = 0
            return p
        return Base.plan(self, seed, tier)

    def oracle(self, R, plan):
        return O.routes(R) + O.shares(R)


@prop
class C18(Base):
    id = "C18"
    observe = 3
    knobs = dict(td_rich=True)

    def oracle(self, R, plan):
        return O.stats(R) + O.queues(R) + O.waits(R)


@prop
class C06(Base):
    id = "C06"

    def extra(self, seed, tier):
        return dict(budget=[400, 1200][seed % 2], td=0.0)

    def oracle(self, R, plan):
        return O.capacity(R)


@prop
class C07(Base):
    id = "C07"
    observe = 9

    def oracle(self, R, plan):
        return O.fifo(R) + O.origin_order(R, {})


@prop
class C08(Base):
    id = "C08"

    def oracle(self, R, plan):
        return O.freeflow(R) + O.link_tt(R) + O.derived_tt(R)


@prop
class C10(Base):
    id = "C10"
    knobs = dict(start=True)

    def oracle(self, R, plan):
        return O.progress(R)


@prop
class C22(Base):
    id = "C22"
    knobs = dict(labels=0.6, tdad=0.6, start=True)

    def plan(self, seed, tier):
        if seed % 150 == 24 or seed % 150 == 99:
            mc = self.kinds[seed % 2] == "mcdta"
            return census(self, seed, 14000, routing=["Biclass_Hybrid"] if mc else ["Hybrid"])
        return Base.plan(self, seed, tier)

    def oracle(self, R, plan):
        return O.composition(R)


import props2  # noqa: E402,F401
import props3  # noqa: E402,F401
import props4  # noqa: E402,F401
import props5  # noqa: E402,F401
import props6  # noqa: E402,F401
import props7  # noqa: E402,F401
import props8  # noqa: E402,F401
import props9  # noqa: E402,F401
import props10  # noqa: E402,F401
import props11  # noqa: E402,F401
