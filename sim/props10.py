"""C27 tours (delivery vehicles), C28 charging stations."""
import copy
import gc
import math
import os
import random
import re

import numpy as np

import gen as G
import oracles as O
import oracles2 as O2
from props import Base, prop, shrink_scenario


class Legs:
    """The trace seen leg by leg: every trip of a tour is a vehicle of its own."""

    def __init__(self, tr):
        self.tr, self.T, self.sizes, self.links = tr, tr.T, tr.sizes, tr.links
        self.counts, self.births, self.deaths, self.paths = tr.counts, tr.births, tr.deaths, tr.paths
        ch = {}
        for t, i, o, d, ty, cs in tr.legs.tolist():
            ch.setdefault(i, []).append((t, o, d, ty, cs))
        self.changes = ch
        self.veh, self.by = {}, {}
        n = 0
        for i, q in sorted(tr.veh.items()):
            stops = [t for t, l in q["trip"] if l < 0]
            ends = stops + ([q["death"]] if q["death"] is not None else [])
            out = []
            a = q["birth"]
            for k in range(len(stops) + 1):
                e = ends[k] if k < len(ends) else None
                trip = [(t, l) for t, l in q["trip"] if l >= 0 and t >= a and (e is None or t < e)]
                c = [x for x in ch.get(i, []) if x[0] < a + (k == 0)] or [(0, q["o"], q["d"], q["type"], -1)]
                n += 1
                # the routing type may be drawn anew until the trip begins
                t0 = trip[0][0] if trip else self.T
                ty = ([x[3] for x in ch.get(i, []) if x[0] <= t0] or [q["type"]])[-1]
                g = dict(q, id=i, o=c[-1][1], d=c[-1][2], birth=a, start=a, type=ty, trip=trip, death=e, leg=k)
                self.veh[n] = g
                out.append(g)
                if e is None:
                    break
                a = e + 1
            if q["death"] is None and stops and (not out or out[-1]["death"] is not None):
                pass
            self.by[i] = out

    def flows(self, link, cls=None):
        if not hasattr(self, "_fl"):
            self._fl = {}
            z = lambda: (np.zeros(self.T, int), np.zeros(self.T, int))
            for g in self.veh.values():
                tp = g["trip"]
                for k, (t, l) in enumerate(tp):
                    f = self._fl.setdefault(l, z())
                    f[0][t] += 1
                    e = tp[k + 1][0] if k + 1 < len(tp) else g["death"]
                    if e is not None:
                        f[1][e] += 1
        z = np.zeros(self.T, int)
        return self._fl.get(link, (z, z))


def stamp(s, l):
    return max(1, int(l["len"] / l["ffs"] * 3600.0 / s["ut"] + 1e-9))


def check_tours(R, L, n):
    v = []
    s, tr = R.s, R.tr
    names = [tuple((R.onode[o], R.dnode[d]) for o, d in m[0]) for m in s["multi"]]
    sc = float(s["scalar"])
    # --- release
    got = {}
    for i, q in tr.veh.items():
        p = tr.plans.get(i)
        seq = tuple(p["seq"]) if p and p["seq"] else None
        if seq is not None and seq not in names:
            return [("plan", "vehicle %d makes the tour %s, which nobody asked for" % (i, seq))]
        k = (q["birth"], seq or (q["o"], q["d"]))
        got[k] = got.get(k, 0) + 1
        if q["start"] != q["birth"] or q["assign"] != q["birth"] // s["frq"]:
            return [("start", "vehicle %d entered at interval %d but its departure time says %d (%d)"
                     % (i, q["birth"], q["start"], q["assign"]))]
    want = {}
    for t, o, d, _, x in O.expected_demand(s):
        want.setdefault((t, (o, d)), []).append(x)
    for m, nm in zip(s["multi"], names):
        for k in range(s["start"], s["maxi"]):
            want.setdefault(((k - s["start"]) * s["frq"], nm), []).append(m[1][k] * sc)
    for k, xs in sorted(want.items(), key=repr):
        lo = sum(math.floor(x + 1e-7) for x in xs)
        hi = sum(math.ceil(x - 1e-7) for x in xs)
        if k[0] < tr.T and not lo <= got.get(k, 0) <= hi:
            v.append(("demand", "%s interval %d: %d vehicles released, demand is %s simulated vehicles"
                      % (k[1], k[0], got.get(k, 0), xs)))
    for k in got:
        if k not in want:
            v.append(("extra", "%s: %d vehicles released at interval %d where there is no demand" % (k[1], got[k], k[0])))
    if v:
        return O._cap(v)
    # --- every tour visits its stops in turn and ends only at the last
    for i, legs in L.by.items():
        p = tr.plans.get(i)
        seq = p["seq"] if p and p["seq"] else [(tr.veh[i]["o"], tr.veh[i]["d"])]
        if len(seq) > 1:
            n["tours"] = n.get("tours", 0) + 1
        done = tr.veh[i]["death"] is not None
        if len(legs) > len(seq):
            return [("more", "vehicle %d makes %d trips, its tour has %d" % (i, len(legs), len(seq)))]
        for k, g in enumerate(legs):
            if (g["o"], g["d"]) != tuple(seq[k]):
                return [("order", "trip %d of vehicle %d goes from %d to %d, its tour says %s" % (k, i, g["o"], g["d"], seq[k]))]
            if g["death"] is not None:
                n["stops"] = n.get("stops", 0) + 1
        if done and len(legs) < len(seq):
            return [("cut", "vehicle %d left the network after %d of the %d trips of its tour %s" % (i, len(legs), len(seq), seq))]
        if not done and legs[-1]["death"] is not None:
            return [("lost", "vehicle %d made all its trips and is still counted" % i)]
    return v


def check_waits(R, L, n):
    """A tour waits at each further origin, on its first link, before it moves on."""
    s, tr = R.s, R.tr
    ex = tr.exits()
    seen = {}
    for t, row in enumerate(ex):
        for l, ids in row.items():
            for i in ids:
                seen.setdefault((i, l), []).append(t)
    took = {}
    for i, legs in L.by.items():
        for k, g in enumerate(legs):
            if not g["trip"]:
                continue
            te, l = g["trip"][0]
            link = R.links[l]
            o = R.node_o[g["o"]]
            w = float(((s["wait"] or {}).get(str(o)) or [0])[0]) / s["ut"] if k else 0.0
            lo, hi = math.floor(w + 1e-9), math.ceil(w - 1e-9)
            out = g["trip"][1][0] if len(g["trip"]) > 1 else g["death"]
            at = [t for t in seen.get((i, l), []) if t >= te and (out is None or t < out)]
            if not at:
                if out is not None:
                    return [("skip", "vehicle %d left link %d without reaching its exit" % (i, l))]
                if tr.T - 1 - te > hi + stamp(s, link) and link["cap"] >= 99999:
                    return [("stuck", "vehicle %d entered link %d in interval %d and was not at its exit in interval %d"
                             % (i, l, te, tr.T - 1))]
                continue
            d = at[0] - te - (stamp(s, link) - 1)
            if d < lo:
                return [("early", "vehicle %d (trip %d) came to the exit of link %d in interval %d, it entered in %d and has to "
                         "wait %g intervals" % (i, k, l, at[0], te, w))]
            if link["cap"] >= 99999:
                if d > hi:
                    return [("late", "vehicle %d (trip %d) came to the exit of link %d in interval %d, it entered in %d and has "
                             "to wait %g intervals" % (i, k, l, at[0], te, w))]
                if k:
                    n["waits"] = n.get("waits", 0) + (d > 0)
                    if took.setdefault(o, d) != d:
                        return [("uneven", "tours wait %d and %d intervals at origin %d" % (took[o], d, o))]
    return []


def report(path):
    out = {}
    with open(path) as f:
        for ln in f:
            m = re.match(r"Total ([a-z ]+): ([-0-9.]+)", ln)
            if m and m.group(1) not in out:
                out[m.group(1)] = float(m.group(2))
    return out


def check_report(R, path):
    s, tr = R.s, R.tr
    sc = float(s["scalar"])
    r = report(path)
    tot = dead = 0
    for q in tr.veh.values():
        e = q["death"] if q["death"] is not None else tr.T
        tot += e - q["start"]
        dead += q["death"] is not None
    P = tr.plans.values()
    want = {"released car": len(tr.veh), "finished car": dead, "enroute car": len(tr.veh) - dead,
            "released delivery car": sum(1 for p in P if p["seq"])}
    if s.get("ev"):
        want["released electrified car"] = sum(p["ev"] for p in P)
        want["home charged electrified car"] = sum(p["ev"] and not p["road"] for p in P)
    for k, x in want.items():
        if k not in r or r[k] != int(x / sc):
            return [("report", "the report says %s: %s, there were %d simulated vehicles (flow scalar %g)" % (k, r.get(k), x, sc))]
    if s.get("ev"):
        x = int(want["released electrified car"] / sc) - int(want["home charged electrified car"] / sc)
        if r.get("roadside charged electrified car") != x:
            return [("report", "the report says %s roadside charged cars, there were %d" % (r.get("roadside charged electrified car"), x))]
    x = tot * s["ut"] / 3600.0 / sc
    if not abs(r.get("car tt", -1) - x) <= 1e-4 + 1e-5 * x:
        return [("report", "the report says %s hours, the vehicles spent %.6f" % (r.get("car tt"), x))]
    return []


def counts_ok(R):
    tr = R.tr
    B, D = np.zeros(tr.T, int), np.zeros(tr.T, int)
    for t in tr.births[:, 0]:
        B[t] += 1
    for t in tr.deaths[:, 0]:
        D[t] += 1
    B, D, c = np.cumsum(B), np.cumsum(D), tr.counts
    for t in range(tr.T):
        if not (c[t, 0] == B[t] and c[t, 2] == D[t] and c[t, 1] == c[t, 3] == B[t] - D[t]):
            return [("count", "interval %d: released %d, en route %d, finished %d; %d entered, %d left"
                     % (t, c[t, 0], c[t, 1], c[t, 2], B[t], D[t]))]
    if R.s["total"] <= 0 and tr.T and c[-1, 1] != 0:
        return [("undrained", "the run ended with %d vehicles en route" % c[-1, 1])]
    return []


class Special(Base):
    observe = 7
    repeatable = True
    electric = False

    def plan(self, seed, tier):
        r = random.Random("%s/%d" % (self.id, seed))
        ev = self.electric if self.electric is not None else seed % 2 == 1
        s = G.gen("%s/%d" % (self.id, seed), "dta", budget=[20, 60, 200][seed % 3], routing=["Hybrid"], tdad=0.0, td=0.0,
                  no_wide=["crowd", "long", "scalar"], labels=1.0 if ev else 0.2, scalar=[1, 1, 2, 3, 5], rec=0, cyclic=0.0, **self.knobs)
        s["tdad"] = s["td"] = None
        s["frq_fx"] = s["frq"]
        s["reg"] = None
        G.tours(s, r)
        if ev:
            if seed % 4 == 3:
                s["multi"] = []
            s["labels"]["rows"] = [[q[0]] + [[1.0 if s["labels"]["n"] == 1 else x for x in q[1]]] + [q[2]]
                                   for q in s["labels"]["rows"]]
            if r.random() < 0.6:
                s["labels"]["ev"][0] = max(range(s["labels"]["n"]), key=lambda k: sum(q[1][k] for q in s["labels"]["rows"]))
            G.electric(s, r)
        q = {"heap": r.choice([0, 1, 2, 3]), "hseed": r.randrange(1 << 30), "fill": r.choice([0, 0x5A, 0xFF])}
        return {"s": s, "again": q if seed % 5 == 0 else None}

    def shrink(self, plan):
        s = plan["s"]
        for k in range(len(s["multi"])):
            t = copy.deepcopy(s)
            del t["multi"][k]
            yield dict(plan, s=t)
        for t in shrink_scenario(s):
            # what tours and stations need stays
            ids = {l["id"] for l in t["links"]}
            on, dn = dict(map(tuple, t["orig"])), dict(map(tuple, t["dest"]))
            have = {(p[0][0], p[0][-1]) for p in t["paths"]}
            if s.get("ev") and (not t["labels"] or not ids.issuperset(s["cslinks"])):
                continue
            if all(o in on and d in dn and (on[o], dn[d]) in have for m in t["multi"] for o, d in m[0]) \
                    and all(len(m[1]) >= t["maxi"] for m in t["multi"]):
                yield dict(plan, s=t)

    def execute(self, W, plan, root):
        r = self.once(W, plan, root)
        if not r["v"] and plan.get("again"):
            # the random state decides the run, whatever the memory looks like
            p = dict(plan, s=dict(plan["s"], sim=dict(plan["s"]["sim"], **plan["again"])))
            q = self.once(W, p, os.path.join(root, "again"))
            if q["v"]:
                r["v"] = q["v"]
            elif q["il"] != r["il"]:
                r["v"].append({"kind": "again", "msg": "two runs of the same scenario from the same random state have different histories"})
        return r

    def once(self, W, plan, root):
        s, v, n, tr = plan["s"], [], {}, None
        G.write(s, root)
        W.begin(s["sim"], heap_on=self.heap_on, observe=self.observe, cap=self.cap)
        d = W.mp.Dta()
        try:
            W.mp.set_random_state(s["rng"])
            if s.get("ev"):
                d.run_dnl_electrified_traffic(root, False, False, 1 << 20, "")
            else:
                d.run_dnl_delivery_traffic(root, False, bool(s["rng"] % 2), 1 << 20)
        except Exception as e:
            v.append(("exception", "the run raised %s: %s" % (type(e).__name__, str(e)[:200])))
        else:
            tr = W.traces()[-1]
            d.register_links()
            R = O.Run(s, d, tr)
            R.root = root
            try:
                v += self.judge(R, n)
            except OSError as e:
                v.append(("files", "%s: %s" % (type(e).__name__, str(e)[:200])))
            R.d = None
        del d
        gc.collect()
        bad = W.end()
        if bad:
            v.append(("heap", "heap damage: " + bad))
        r = self.result(W, s, tr, v)
        r["st"].update(n)
        return r


@prop
class C27(Special):
    id = "C27"
    electric = None

    def judge(self, R, n):
        s = R.s
        L = Legs(R.tr)
        v = counts_ok(R)
        v += check_tours(R, L, n)
        if v:
            return v
        RL = O.Run(s, R.d, L)
        v += O.routes(RL) + O.freeflow(RL) + check_waits(R, L, n)
        v += [x for x in O.curves(RL)]
        v += check_report(R, os.path.join(R.root, "record", "statistics_and_emission.txt"))
        return v


# ------------------------------------------------------------------ stations
class View:
    """The run seen with the stations as nodes."""

    def __init__(self, R, L):
        s = R.s
        self.s = dict(s, nodes=s["nodes"] + [[c[0], "CS", 1] for c in s["ev"]["cs"]])
        self.tr, self.links, self.mc, self.d = L, R.links, False, R.d


def reach(links, frm, fwd=True):
    seen, todo = {frm}, [frm]
    while todo:
        a = todo.pop()
        for l in links:
            x, y = (l["a"], l["b"]) if fwd else (l["b"], l["a"])
            if x == a and y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def candidates(R):
    """(origin node, destination node) -> stations a vehicle may be sent to."""
    s = R.s
    e = s["ev"]
    cs = [c[0] for c in e["cs"]]
    out = {}
    rows = e["cand"] or [[o[0], d[0]] + cs for o in s["orig"] for d in s["dest"]]
    for q in rows:
        a, b = R.onode[q[0]], R.dnode[q[1]]
        f, g = reach(s["links"], a), reach(s["links"], b, False)
        out.setdefault((a, b), set()).update(c for c in q[2:] if c in f and c in g)
    return out


def check_who(R, L, n):
    """Who charges, and where."""
    s, tr = R.s, R.tr
    e = s["ev"]
    st = {c[0] for c in e["cs"]}
    cand = candidates(R)
    lab = s["labels"]["ev"][0]
    share = {}
    for i, q in sorted(tr.veh.items()):
        p = tr.plans.get(i) or dict(ev=False, road=False, seq=None)
        if p["ev"] != (q["label"] == lab):
            return [("label", "vehicle %d of label %d is %selectric, the label of electric vehicles is %d"
                     % (i, q["label"], "" if p["ev"] else "not ", lab))]
        if p["ev"]:
            x = share.setdefault(q["o"], [0, 0])
            x[0] += 1
            x[1] += p["road"]
        left = float(e["start"]) if p["ev"] and p["road"] else None
        since = 0.0
        for g in L.by[i]:
            at = [(k, R.links[l]["b"]) for k, (t, l) in enumerate(g["trip"]) if R.links[l]["b"] in st]
            may = cand.get((g["o"], g["d"]), set())
            if left is None:
                need = False
            elif not p["seq"]:
                need = True
            else:
                x = left - since - 0.1 * e["full"]
                need = None if abs(x) < 1e-9 * max(1.0, e["full"]) else x < 0
            if need is False and at:
                return [("detour", "vehicle %d goes to the charging station %d and has no need of it" % (i, at[0][1]))]
            if len(at) > 1:
                return [("twice", "vehicle %d goes to the charging stations %s on one trip" % (i, [x for _, x in at]))]
            if at and at[0][1] not in may:
                return [("elsewhere", "vehicle %d from %d to %d charges at %d, its candidates are %s"
                         % (i, g["o"], g["d"], at[0][1], sorted(may)))]
            if need and may:
                if not at and g["death"] is not None:
                    return [("uncharged", "vehicle %d has to charge on its trip from %d to %d and arrived without"
                             % (i, g["o"], g["d"]))]
                n["need"] = n.get("need", 0) + 1
            g["stop"] = at[0] if at else None
            for k, (t, l) in enumerate(g["trip"][:-1]):
                if at and k == at[0][0]:
                    left, since = float(e["full"]), 0.0
                elif R.links[l]["type"] != "PQ" and R.links[g["trip"][k + 1][1]]["a"] not in st:
                    since += R.links[l]["len"]
    if s["sim"]["pol"] == 0:
        for o, (m, k) in share.items():
            p = float(s["wait"][str(R.node_o[o])][1])
            if abs(k - m * p) > 7 * math.sqrt(m * p * (1 - p)) + 1e-9 + (p < 1) * 3:
                return [("ratio", "%d of the %d electric vehicles of origin %d charge on the road, the ratio is %g"
                         % (k, m, R.node_o[o], p))]
    return []


def check_service(R, n):
    """Every arrival joins a shortest queue; the head of a queue leaves when it
    has been there for the charging time."""
    s, tr = R.s, R.tr
    P, E = tr.pools(len(s["ev"]["cs"])), tr.exits()
    moved = {}
    for i, q in tr.veh.items():
        for t, l in q["trip"]:
            moved[(t, i)] = l
    v = []
    for c, slots, sec, _w, _p in s["ev"]["cs"]:
        ct = int(sec / float(s["ut"]))
        ins = [l["id"] for l in s["links"] if l["b"] == c]
        old = [[] for _ in range(slots * int(s["scalar"]))]
        head = [None] * len(old)
        for t in range(tr.T):
            new = P[t][c]
            if len(new) != len(old):
                return [("slots", "station %d has %d places, it should have %d" % (c, len(new), len(old)))]
            arr = [list(E[t - 1].get(l, [])) if t else [] for l in ins]
            come = {i for a in arr for i in a}
            size, added = [], []
            for k, (a, b) in enumerate(zip(old, new)):
                gone = bool(a) and (not b or b[0] != a[0])
                rest = a[1:] if gone else a
                if b[:len(rest)] != rest:
                    return [("queue", "interval %d: a queue at station %d went from %s to %s" % (t, c, a, b))]
                tail = b[len(rest):]
                if any(i not in come for i in tail):
                    return [("intruder", "interval %d: %s joined a queue at station %d, arrived had %s" % (t, tail, c, sorted(come)))]
                if a:
                    due = t - head[k] >= ct
                    if gone != due:
                        return [("served", "interval %d: vehicle %d at the head of a queue of station %d since interval %d %s; charging "
                                 "takes %d intervals" % (t, a[0], c, head[k], "has left" if gone else "is still there", ct))]
                    if gone:
                        n["charged"] = n.get("charged", 0) + 1
                        l = moved.get((t, a[0]))
                        if l is None or R.links[l]["a"] != c:
                            return [("leave", "vehicle %d charged at station %d until interval %d and is not on a way out" % (a[0], c, t))]
                    if gone and b:
                        head[k] = t + 1
                elif b:
                    head[k] = t
                size.append(len(a) + len(tail))
                added.append(tail)
            joined = [i for x in added for i in x]
            if sorted(joined) != sorted(come):
                return [("turned", "interval %d: %s arrived at station %d, %s joined a queue" % (t, sorted(come), c, joined))]
            for x, tail in zip(size, added):
                if tail and x > min(size) + 1:
                    return [("longer", "interval %d: vehicles %s joined a queue of station %d that became %d long, another has %d"
                             % (t, tail, c, x, min(size)))]
            if len(arr) == 1 and sum(map(bool, added)):
                # one way in: the order of arrival decides
                z = [len(a) for a in old]
                for i in arr[0]:
                    k = min(range(len(z)), key=lambda j: (z[j], j))
                    j = [m for m, x in enumerate(added) if i in x][0]
                    if z[j] != z[k]:
                        return [("order", "interval %d: vehicle %d joined a queue of %d at station %d, the shortest had %d"
                                 % (t, i, z[j], c, z[k]))]
                    z[j] += 1
            for a in arr:
                for x in added:
                    y = [i for i in x if i in a]
                    if y != [i for i in a if i in y]:
                        return [("overtake", "interval %d: %s arrived at station %d in the order %s" % (t, y, c, a))]
            old = [list(x) for x in new]
        v += station_files(R, c, ct, P)
    return v


def station_files(R, c, ct, P):
    s, tr = R.s, R.tr
    base = os.path.join(R.root, "record", "charging_station_%d_" % c)
    out = np.zeros(tr.T + 1)
    for q in tr.veh.values():
        for t, l in q["trip"]:
            if l >= 0 and R.links[l]["a"] == c:
                out[t + 1] += 1.0 / s["scalar"]
    cum = np.cumsum(out)
    rows = []
    with open(base + "cc.txt") as f:
        h = f.readline()
        if not h.startswith("loading_interval,"):
            return [("file", "the curve of station %d begins with %r" % (c, h[:40]))]
        for ln in f:
            if ln.strip():
                a, b = ln.split(",")[:2]
                rows.append((float(a), float(b)))
    want = [(0.0, 0.0)] + [(float(t), cum[t]) for t in range(1, tr.T + 1) if out[t] > 0]
    if len(rows) != len(want) or any(a != x or abs(b - y) > 1e-4 for (a, b), (x, y) in zip(rows, want)):
        return [("cc", "the curve of station %d says %s, vehicles left it by %s" % (c, rows[-3:], want[-3:]))]
    with open(base + "wt.txt") as f:
        f.readline()
        rows = [tuple(int(x) for x in ln.split(",")) for ln in f if ln.strip()]
    want = [(0, 0)] + [(t + 1, min(len(q) for q in P[t][c]) * ct * s["ut"]) for t in range(tr.T)]
    if rows != want:
        k = [a == b for a, b in zip(rows, want)].index(False) if len(rows) == len(want) and rows != want else -1
        return [("wt", "the waiting times of station %d have %d rows (%s), expected %d (%s)"
                 % (c, len(rows), rows[k], len(want), want[k]))]
    return []


def times(V, l):
    """(low, high) travel time of a link at intervals -1, 0, ..."""
    if l["b"] not in {c[0] for c in V.s["ev"]["cs"]} and (l["type"] != "PQ" or l["cap"] >= 99999):
        return O2.series(V, l["id"], "tt", None)
    # how many are past the entrance, or wait at the station, is not known
    A = O2.attrs(V, l["id"])[0][1]
    f = lambda x: O2.fd_tt(V, A, x / float(V.s["scalar"]), "c")
    n = [0] + O2.on_link(V, l["id"]).tolist()
    return [f(0)[0]] * len(n), [f(x)[1] for x in n]


def check_choice(R, L, n):
    """Adaptive vehicles take a cheapest way to their station or destination,
    and the station makes the whole way cheapest, by the costs of the last
    routing update."""
    s, tr = R.s, R.tr
    V = View(R, L)
    st = {c[0]: c for c in s["ev"]["cs"]}
    m, f = s["rec"]["n"], s["frq_ad"]
    vot = (20.0 if s.get("vot") is None else float(s["vot"])) / 3600.0
    P = tr.pools(len(st))
    cand = candidates(R)
    lo, hi, ff = {}, {}, {}
    ts = None
    for l in s["links"]:
        a, b = times(V, l)
        ff[l["id"]] = (a[0], b[0])
        ts, lo[l["id"]] = zip(*O2.averaged(a, m))
        hi[l["id"]] = [x for _, x in O2.averaged(b, m)]
    rec = {t: k for k, t in enumerate(ts) if t >= 0}
    costs, dist = {}, {}

    def cost(u):
        if u not in costs:
            r = max([t for t in rec if t < u] or [-1])
            cl, ch = {}, {}
            for l in s["links"]:
                i = l["id"]
                x = O2.toll_at(V, i, u)
                a, b = (lo[i][rec[r]], hi[i][rec[r]]) if r >= 0 else ff[i]
                if l["b"] in st:
                    c = st[l["b"]]
                    ct = int(c[2] / float(s["ut"]))
                    q = min(len(z) for z in P[u - 1][c[0]]) if u else 0
                    x += 10 * (vot * (q + 1) * ct * s["ut"] + c[4])
                cl[i], ch[i] = (vot * a + x) * (1 - 1e-6), (vot * b + x) * (1 + 1e-6)
            costs[u] = cl, ch
        return costs[u]

    def to(u, d):
        if (u, d) not in dist:
            cl, ch = cost(u)
            dist[(u, d)] = O2.bellman(V, d, cl), O2.bellman(V, d, ch)
        return dist[(u, d)]

    for i, legs in L.by.items():
        p = tr.plans.get(i) or dict(ev=False)
        for g in legs:
            if g["type"] == 1 or not g["trip"]:
                continue
            now = [x for x in L.changes.get(i, []) if x[0] <= g["trip"][0][0]]
            goal = now[-1][4] if p["ev"] and now else -1
            if goal not in st:
                goal = None
            if goal is not None:
                u = g["trip"][0][0] // f * f
                c = {x: to(u, x) for x in cand.get((g["o"], g["d"]), set()) | {goal}}
                D = to(u, g["d"])
                best = min((c[x][1][g["o"]] + D[1][x], x) for x in c)
                mine = c[goal][0][g["o"]] + D[0][goal]
                n["picks"] = n.get("picks", 0) + (len(c) > 1)
                if mine > best[0] + 1e-9:
                    return [("station", "vehicle %d goes from %d to %d by station %d for at least %.6f by the costs of interval %d, "
                             "by station %d it is at most %.6f" % (i, g["o"], g["d"], goal, mine, u, best[1], best[0]))]
            for t, l in g["trip"]:
                a, b = R.links[l]["a"], R.links[l]["b"]
                if a in st:
                    goal = None
                    continue
                u = t // f * f
                d = goal if goal is not None else g["d"]
                cl, _ = cost(u)
                dl, dh = to(u, d)
                n["decisions"] = n.get("decisions", 0) + 1
                if cl[l] + dl[b] > dh[a] + 1e-9:
                    return [("dearer", "vehicle %d at node %d in interval %d takes link %d: at least %.6f to node %d by the costs of "
                             "interval %d, another way costs at most %.6f" % (i, a, t, l, cl[l] + dl[b], d, u, dh[a]))]
    return []


@prop
class C28(Special):
    id = "C28"
    electric = True

    def judge(self, R, n):
        L = Legs(R.tr)
        v = check_tours(R, L, n)
        if v:
            return []      # C27 reports that
        return check_who(R, L, n) + check_service(R, n) + check_choice(R, L, n)
