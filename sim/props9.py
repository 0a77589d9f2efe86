"""C26 equilibrium iterations (run_due)."""
import gc
import math
import os
import random

import numpy as np

import gen as G
import oracles as O
import oracles2 as O2
from props import Base, prop
from world import FAULT

FILES = ("path_table", "path_table_buffer", "path_table_time", "path_table_disutility")


def read_all(folder):
    cols = []
    for n in FILES:
        with open(os.path.join(folder, n)) as f:
            t = f.read().split("\n")
        if t[-1] != "":
            return None
        cols.append([r.split() for r in t[:-1]])
    if len({len(c) for c in cols}) != 1:
        return None
    return [(tuple(int(x) for x in a), [float(x) for x in b], [float(x) for x in c], [float(x) for x in d])
            for a, b, c, d in zip(*cols)]


@prop
class C26(Base):
    id = "C26"
    kinds = ["dta"]
    knobs = dict(td=0.0, routing=["Hybrid"], tdad=0.0, labels=0.0, emis=0.0, wide=0.0, start=False, n=[2, 3, 4, 4, 5, 6])
    repeatable = True

    def plan(self, seed, tier):
        r = random.Random("C26/%d" % seed)
        s = G.gen("C26/%d" % seed, "dta", budget=[40, 120, 300][seed % 3], toll=0.4, **self.knobs)
        s["routing"] = "Due"
        s["tdad"] = s["td"] = None
        s["frq_fx"] = s["frq"]
        s["reg"] = None
        if s["total"] > 0:
            s["total"] = max(s["total"], s["frq"] * s["maxi"])
        vot = r.choice([5, 20, 60])
        span = s["frq"] * s["maxi"] * s["ut"] / 60.0
        s["due"] = {"vot": vot, "early_penalty": r.choice([0, 2, 10, 2 * vot]), "late_penalty": r.choice([0, 2, 30, 100]),
                    "target_time": round(r.choice([0, 0.5, 1, 2]) * span, 3), "lambda": r.choice([0.01, 0.1, 0.5, 1])}
        n = r.choice([1, 2, 2, 3, 4])
        p = {"s": s, "n": n, "dtc": r.random() < 0.4, "gp": r.random() < 0.4, "same": r.random() < 0.5, "fault": None}
        if r.random() < 0.1:
            p["fault"] = {"file": r.choice(FILES + ("gap_iteration",)), "kind": r.choice(["OPENW", "EMFILE", "SHORTW", "EINTR"]),
                          "arg": r.choice([2, 3, 50])}
        p["dso"] = all(l["type"] != "LQ" for l in s["links"]) and r.random() < 0.4
        return p

    def execute(self, W, plan, root):
        s, v, n, tr = plan["s"], [], {}, None
        G.write(s, root)
        rec = os.path.join(root, "record")
        W.begin(s["sim"], cap=self.cap)
        fl = plan["fault"]
        last = gaps = None
        d = None
        for k in range(1, plan["n"] + 1):
            i = None
            if fl:
                i = W.L.sim_fault(rec.encode(), ("/" + fl["file"]).encode(), FAULT[fl["kind"]], fl["arg"])
            err = None
            W.observe(1, self.cap)
            try:
                W.mp.set_random_state(s["rng"])
                if d is None or not plan["same"]:
                    d = W.mp.Dta()
                (d.run_dso if plan.get("dso") else d.run_due)(k, root, False, plan["dtc"], "GP" if plan["gp"] else "MSA")
            except Exception as e:
                err = e
            if fl:
                fired = W.L.sim_fault_fired(i)
                W.L.sim_fault_off(i)
                if fired:
                    n[fl["kind"]] = n.get(fl["kind"], 0) + 1
                if fired and fl["kind"] in ("OPENW", "EMFILE"):
                    if err is None:
                        v.append(("silent", "%s could not be written, and nothing was raised" % fl["file"]))
                    break
            if err is not None:
                v.append(("exception", "run_due(%d) raised %s: %s" % (k, type(err).__name__, str(err)[:200])))
                break
            n["iterations"] = n.get("iterations", 0) + k
            tr = W.traces()
            if len(tr) != k:
                v.append(("count", "%d loadings for %d iterations" % (len(tr), k)))
                break
            tr = tr[-1]
            try:
                rows, g = read_all(rec), self.gaps(rec)
            except (OSError, ValueError) as e:
                v.append(("files", "after %d iterations: %s" % (k, e)))
                break
            if rows is None or g is None:
                v.append(("files", "after %d iterations: the files have different lengths" % k))
                break
            if len(g) != k:
                v.append(("gap", "%d rows of gaps after %d iterations" % (len(g), k)))
                break
            if gaps is not None and repr(g[:len(gaps)]) != repr(gaps):
                v.append(("gap", "with the same random state, %d iterations report %s, %d report %s" % (len(gaps), gaps, k, g)))
                break
            gaps = g
            v += self.judge(s, plan, tr, rows, g[-1], k, last, n)
            if v:
                break
            last = self.keep
        del d
        gc.collect()
        bad = W.end()
        if bad:
            v.append(("heap", "heap damage: " + bad))
        r = self.result(W, s, tr if not isinstance(tr, list) else None, v, f=n)
        r["nontrivial"] = True
        if r["il"] == "-":
            r["il"] = s["seed"]
        return r

    @staticmethod
    def gaps(rec):
        with open(os.path.join(rec, "gap_iteration")) as f:
            t = f.read().split("\n")
        if t[-1] != "":
            return None
        return [tuple(float(x) for x in r.split()) for r in t[:-1]]

    def judge(self, s, plan, tr, rows, gap, k, last, n):
        R = O.Run(s, None, tr) if s["reg"] is not None else O.Run(dict(s, reg=[l["id"] for l in s["links"]]), None, tr)
        by = {(l["a"], l["b"]): l["id"] for l in s["links"]}
        m, frq, ut, due = s["maxi"], s["frq"], float(s["ut"]), s["due"]
        dem = {(R.onode[o], R.dnode[d]): c for o, d, c, _ in s["demand"]}
        what = "iteration %d" % k
        sets = {}
        for nodes, fl, tt, du in rows:
            if (nodes[0], nodes[-1]) not in dem or any(p not in by for p in zip(nodes, nodes[1:])):
                return [("path", "%s: %s is not a path of an OD pair with demand" % (what, nodes))]
            if not (len(fl) == len(tt) == len(du) == m):
                return [("files", "%s: path %s has %d flows, %d times, %d costs for %d intervals" % (what, nodes, len(fl), len(tt), len(du), m))]
            sets.setdefault((nodes[0], nodes[-1]), []).append((nodes, fl, tt, du))
        tol = 2e-6 * (len(rows) + 2)
        for od, c in dem.items():
            ps = sets.get(od, [])
            if not ps:
                return [("path", "%s: no path for %s" % (what, od))]
            if len({p[0] for p in ps}) != len(ps):
                return [("path", "%s: a path of %s is listed twice" % (what, od))]
            for p in ps:
                for j, x in enumerate(p[1]):
                    if not x >= -1.5e-6:
                        return [("negative", "%s: path %s carries %r in interval %d" % (what, p[0], x, j))]
            if plan["dtc"]:
                a, b = sum(sum(p[1]) for p in ps), sum(c[:m])
                if not abs(a - b) <= tol * m + 1e-9 * b:
                    return [("demand", "%s: the paths of %s carry %r in all, the demand is %r" % (what, od, a, b))]
            else:
                for j in range(m):
                    a = sum(p[1][j] for p in ps)
                    if not abs(a - c[j]) <= tol + 1e-9 * c[j]:
                        return [("demand", "%s: the paths of %s carry %r in interval %d, the demand is %r" % (what, od, a, j, c[j]))]
        # the loading of this iteration
        rel = {}
        lsets = {od: {tuple(by[p] for p in zip(q[0], q[0][1:])) for q in ps} for od, ps in sets.items()}
        for q in tr.veh.values():
            od = (q["o"], q["d"])
            if od not in dem or q["birth"] % frq:
                return [("release", "%s: a vehicle of %s is released at interval %d" % (what, od, q["birth"]))]
            rel[od, q["birth"] // frq] = rel.get((od, q["birth"] // frq), 0) + 1
            if q["death"] is not None and tuple(l for _, l in q["trip"]) not in lsets[od]:
                return [("route", "%s: vehicle %d of %s used links %s, which is none of its paths" % (what, q["id"], od, [l for _, l in q["trip"]]))]
        for od in dem:
            for j in range(m):
                x = sum(p[1][j] for p in sets[od]) * s["scalar"]
                e = tol * s["scalar"]
                y = rel.get((od, j), 0)
                if not math.floor(x - e) <= y <= math.ceil(x + e):
                    return [("release", "%s: %d vehicles of %s released in interval %d, the paths carry %r" % (what, y, od, j, x))]
        # travel times, costs, gap
        H = s["total"] if s["total"] > 0 else m * frq
        rng = {l: O2.link_ranges(R, l, None)[:H] for l in by.values()}
        for l in rng:
            if len(rng[l]) < H:
                return [("horizon", "%s: the loading ends after %d of %d intervals" % (what, len(rng[l]), H))]
        vot, ep, lp = (due[x] / 3600.0 * ut for x in ("vot", "early_penalty", "late_penalty"))
        tgt = due["target_time"] * 60 / ut
        zero = {l: 0.0 for l in rng}
        R.tr = _T(R.tr, H)
        for ps in sets.values():
            for nodes, fl, tt, du in ps:
                links = [by[p] for p in zip(nodes, nodes[1:])]
                for j in range(m):
                    if plan.get("dso"):
                        # marginal times: at least free flow, cost and time agree
                        x = tt[j] / ut
                        if x < sum(min(O.fftt_loading(R, R.links[l], None)) for l in links) - 1e-5 or abs(x - du[j]) > 1e-5 + 1e-6 * x:
                            return [("marginal", "%s: path %s has marginal time %r s and cost %r from interval %d" % (what, nodes, tt[j], du[j], j))]
                        continue
                    ok = O2.walk(R, links, j * frq, rng, 0.0, zero)
                    x = tt[j] / ut
                    if abs(x - round(x)) > 1e-5 or j * frq + int(round(x)) not in ok:
                        return [("time", "%s: path %s takes %r s from interval %d, link by link %s" % (
                            what, nodes, tt[j], j, sorted((q - j * frq) * ut for q in ok)))]
                    at = j * frq + x
                    w = vot * x + (lp * (at - tgt) if at >= tgt else ep * (tgt - at))
                    if abs(w - du[j]) > 2e-6 + 1e-6 * abs(w):
                        return [("cost", "%s: path %s costs %r from interval %d, expected %r" % (what, nodes, du[j], j, w))]
        tot = sum(x * t / ut for ps in sets.values() for p in ps for x, t in zip(p[1], p[2]))
        mag = sum(t / ut for ps in sets.values() for p in ps for t in p[2])
        if not plan.get("dso") and not abs(tot - gap[1]) <= 1e-6 * (mag + 2) + 1e-6 * tot:
            return [("total", "%s: total travel time %r, the paths add up to %r" % (what, gap[1], tot))]
        G0 = L0 = err = 0.0
        for ps in sets.values():
            lo = min(p[3][j] for p in ps for j in range(m))
            for j in range(m):
                if not plan["dtc"]:
                    use = [p for p in ps if p[1][j] > 0]
                    if any(0 <= p[1][j] < 2e-6 for p in ps) and len(use) != len([p for p in ps if p[1][j] >= 2e-6]):
                        err = float("inf")          # flows too small to be seen in the file decide
                    lo = min([p[3][j] for p in use] or [0])
                for p in ps:
                    if plan["dtc"] or p[1][j] > 0:
                        G0 += (p[3][j] - lo) * p[1][j]
                        L0 += lo * p[1][j]
                        err += 2e-6 * (p[1][j] + abs(p[3][j]) + abs(lo) + 1)
        if plan["dtc"]:
            if not abs(gap[0] - G0) <= err + 1e-6:
                return [("gap", "%s: gap %r reported, the paths give %r" % (what, gap[0], G0))]
        elif L0 > 0:
            # paths of flow below what the file shows may set the reference
            if err < float("inf") and min([x for p in rows for x in p[1] if x > 0] or [1]) > 1e-5 and not any(
                    0 == x for p in rows for x in p[1] if last is not None):
                if not abs(gap[0] - G0 / L0) <= 1e-6 + (err + err * G0 / L0) / L0:
                    return [("gap", "%s: gap %r reported, the paths give %r" % (what, gap[0], G0 / L0))]
                n["gaps"] = n.get("gaps", 0) + 1
            if not gap[0] >= 0:
                return [("gap", "%s: gap %r" % (what, gap[0]))]
        self.keep = (rows, rng)
        # first iteration: all on one route; later: how flows moved
        if k == 1:
            for od, ps in sets.items():
                if len(ps) != 1:
                    return [("path", "%d initial paths for %s" % (len(ps), od))]
        elif last is not None:
            return self.moved(s, plan, sets, last, k, R, rng, by, n)
        return []

    def moved(self, s, plan, sets, last, k, R, rng, by, n):
        old = {}
        last, rng = last
        vot = s["due"]["vot"] / 3600.0 * s["ut"]
        toll = {l["id"]: 0.0 for l in s["links"]}
        toll.update({q[0]: q[1] for q in s.get("toll") or []})

        def cost(nodes, j):
            c = O2.walk(R, [by[p] for p in zip(nodes, nodes[1:])], j * s["frq"], rng, vot, toll).values()
            return min(a for a, _ in c), max(b for _, b in c)
        out = {}
        for l in s["links"]:
            out.setdefault(l["a"], []).append(l["b"])
        memo = {}

        def routes(od):
            """up to 40 routes without a cycle"""
            if od not in memo:
                got, todo = [], [(od[0],)]
                while todo and len(got) < 40:
                    q = todo.pop()
                    for b in out.get(q[-1], ()):
                        if b == od[1]:
                            got.append(q + (b,))
                        elif b not in q and len(q) < 12:
                            todo.append(q + (b,))
                memo[od] = got
            return memo[od]
        for p in last:
            old.setdefault((p[0][0], p[0][-1]), {})[p[0]] = p
        m = s["maxi"]
        for od, ps in sets.items():
            for x in old[od]:
                if x not in {p[0] for p in ps}:
                    return [("path", "iteration %d: path %s is gone" % (k, x))]
            if plan["dtc"] or plan["gp"]:
                continue
            f = 1 - s["due"]["lambda"] / math.sqrt(k - 1)
            for j in range(m):
                d = {p[0]: (old[od][p[0]][1][j] if p[0] in old[od] else 0.0, p[1][j]) for p in ps}
                c = sum(a for a, _ in d.values())
                e = 3e-6 * (len(ps) + 1)
                n["shifts"] = n.get("shifts", 0) + 1
                # all but one path keep the fraction f
                off = [q for q, (a, b) in d.items() if abs(b - f * a) > e]
                if len(off) > 1:
                    return [("shift", "iteration %d, %s, interval %d: flows went from %s to %s, all but one should keep %.6f"
                             % (k, od, j, [a for a, _ in d.values()], [b for _, b in d.values()], f))]
                if not plan.get("dso") and off and d[off[0]][1] > d[off[0]][0]:
                    lo = cost(off[0], j)[0]
                    for q in list(old[od]) + routes(od):
                        hi = cost(q, j)[1]
                        if lo > hi + 1e-6 * (1 + abs(hi)):
                            return [("shift", "iteration %d, %s, interval %d: flow moved to %s, which costs %r; %s costs %r"
                                     % (k, od, j, off[0], lo, q, hi))]
                    n["best"] = n.get("best", 0) + 1
        return []


class _T:
    """a trace cut to the horizon the cost tables cover"""

    def __init__(self, tr, H):
        self.T = H
        self.flows = tr.flows
