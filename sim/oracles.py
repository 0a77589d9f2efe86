"""Oracles over one recorded loading.  Each takes a Run and returns a list of
(kind, message); an empty list means the property held on that history."""
import math

import random

import zlib

import numpy as np

EPS = 1e-6


class Run:
    """A finished fault-free loading: scenario, instance, trace."""

    def __init__(self, s, inst, tr):
        self.s = s
        self.d = inst
        self.tr = tr
        self.mc = s["kind"] == "mcdta"
        self.links = {l["id"]: l for l in s["links"]}
        self.node_o = {n: o for o, n in s["orig"]}
        self.node_d = {n: d for d, n in s["dest"]}
        self.onode = {o: n for o, n in s["orig"]}
        self.dnode = {d: n for d, n in s["dest"]}
        self.reg = s["reg"] if s["reg"] is not None else [int(x) for x in inst.links]
        self.classes = [0, 1] if self.mc else [None]
        out = {}
        for l in s["links"]:
            out.setdefault(l["a"], []).append(l["id"])
        self.out = out

    def in_ccs(self, cls=None, links=None):
        if not self.mc:
            return self.d.get_in_ccs(links)
        return self.d.get_car_in_ccs(links) if cls == 0 else self.d.get_truck_in_ccs(links)

    def out_ccs(self, cls=None, links=None):
        if not self.mc:
            return self.d.get_out_ccs(links)
        return self.d.get_car_out_ccs(links) if cls == 0 else self.d.get_truck_out_ccs(links)


def _cap(v, n=4):
    return v[:n]


# ---------------------------------------------------------------- conservation
def conservation(R):
    v = []
    tr, s = R.tr, R.s
    sc = float(s["scalar"])
    T = tr.T
    born = np.zeros(T, int)
    died = np.zeros(T, int)
    for t in tr.births[:, 0]:
        born[t] += 1
    for t in tr.deaths[:, 0]:
        died[t] += 1
    B, D = np.cumsum(born), np.cumsum(died)
    c = tr.counts
    for t in range(T):
        if not (c[t, 0] == B[t] and c[t, 2] == D[t] and c[t, 1] == B[t] - D[t] and c[t, 3] == B[t] - D[t]):
            v.append(("count", "interval %d: released %d, en route %d, finished %d reported; %d vehicles entered, %d "
                      "left, %d exist" % (t, c[t, 0], c[t, 1], c[t, 2], B[t], D[t], c[t, 3])))
            break
    # a vehicle that left is gone, one that did not is somewhere definite
    for q in tr.veh.values():
        if any(l < 0 for _, l in q["trip"]):
            v.append(("lost", "vehicle %d is on no link and in no queue at interval %d"
                      % (q["id"], [t for t, l in q["trip"] if l < 0][0])))
            break
        if q["death"] is not None:
            if not q["trip"]:
                v.append(("vanish", "vehicle %d disappeared without travelling" % q["id"]))
                break
            last = R.links[q["trip"][-1][1]]
            if last["b"] != q["d"]:
                v.append(("vanish", "vehicle %d (to node %d) was removed from link %d which ends at node %d"
                          % (q["id"], q["d"], last["id"], last["b"])))
                break
    # node balance, from the public curves only
    allr = R.s["reg"] is None
    if allr:
        ids = [int(x) for x in R.d.links]
        for cls in R.classes:
            I, O = R.in_ccs(cls, ids), R.out_ccs(cls, ids)
            if np.any(O > I + EPS):
                t, k = np.argwhere(O > I + EPS)[0]
                v.append(("overout", "link %d: %g left by %d but only %g entered" % (ids[k], O[t, k], t, I[t, k])))
            for n in R.s["nodes"]:
                if n[1] != "FWJ":
                    continue
                a = [k for k, i in enumerate(ids) if R.links[i]["b"] == n[0]]
                b = [k for k, i in enumerate(ids) if R.links[i]["a"] == n[0]]
                x = O[:, a].sum(axis=1) - I[:, b].sum(axis=1)
                if np.any(np.abs(x) > 1e-4):
                    t = int(np.argwhere(np.abs(x) > 1e-4)[0][0])
                    v.append(("node", "node %d: %g more vehicles left its incoming links than entered its outgoing "
                              "ones by %d" % (n[0], x[t], t)))
                    break
            # accumulation over the whole network = what is on the links
            if R.tr is not None:
                tot = (I - O).sum(axis=1) * sc
                on = np.zeros(T + 1)
                for q in tr.veh.values():
                    if cls is not None and q["cls"] != cls:
                        continue
                    if q["trip"]:
                        on[q["trip"][0][0] + 1] += 1
                    if q["death"] is not None:
                        on[q["death"] + 1] -= 1
                on = np.cumsum(on)
                if len(tot) == T + 1 and np.any(np.abs(tot - on) > 1e-3):
                    t = int(np.argwhere(np.abs(tot - on) > 1e-3)[0][0])
                    v.append(("accum", "curves put %g vehicles on the links at %d, %d are there" % (tot[t], t, on[t])))
    if s["total"] <= 0 and T:
        if c[-1, 1] != 0:
            v.append(("undrained", "the run ended with %d vehicles en route" % c[-1, 1]))
    return v


# ------------------------------------------------------------ cumulative curves
def curves(R):
    v = []
    tr = R.tr
    sc = float(R.s["scalar"])
    T = tr.T
    if int(R.d.get_cur_loading_interval()) != T:
        v.append(("clock", "get_cur_loading_interval() is %d after %d intervals"
                  % (R.d.get_cur_loading_interval(), T)))
        return v
    if [int(x) for x in R.d.registered_links] != [int(x) for x in R.reg]:
        return [("registered", "links %s were registered, %s are reported" % (list(R.reg), list(R.d.registered_links)))]
    for cls in R.classes:
        I, O = R.in_ccs(cls), R.out_ccs(cls)
        if I.shape != (T + 1, len(R.reg)) or O.shape != I.shape:
            return v + [("shape", "curve table has shape %s" % (I.shape,))]
        for k, l in enumerate(R.reg):
            fi, fo = tr.flows(l, cls)
            for nm, M, f in (("inflow", I[:, k], fi), ("outflow", O[:, k], fo)):
                want = np.concatenate([[0], np.cumsum(f)]) / sc
                bad = np.argwhere(~(np.abs(M - want) <= 1e-6 * (1 + np.abs(want))))
                if len(bad):
                    t = int(bad[0][0])
                    v.append(("curve", "cumulative %s of link %d class %s at %d is %r, %r vehicles passed"
                              % (nm, l, cls, t, float(M[t]), float(want[t]))))
    if not R.mc:
        raw_i, raw_o = R.d.get_link_in_cc, R.d.get_link_out_cc
        fn = [(raw_i, None), (raw_o, None)]
    else:
        fn = [(R.d.get_car_link_in_cc, 0), (R.d.get_car_link_out_cc, 0), (R.d.get_truck_link_in_cc, 1),
              (R.d.get_truck_link_out_cc, 1)]
    for f, cls in fn:
        for l in R.reg:
            a = f(l)
            if not (np.all(np.isfinite(a)) and np.all(np.diff(a[:, 0]) > 0) and np.all(np.diff(a[:, 1]) >= -EPS)
                    and np.all(a >= -EPS)):
                v.append(("monotone", "curve of link %d is not increasing: %s" % (l, a[:6].tolist())))
                continue
            fi, fo = tr.flows(l, cls)
            w = np.concatenate([[0], np.cumsum(fi if f.__name__.endswith("in_cc") else fo)]) / sc
            for t, x in a.tolist():
                if t == int(t) and 0 <= t <= T and not abs(x - w[int(t)]) <= 1e-6 * (1 + w[int(t)]):
                    v.append(("rawcurve", "%s(%d) has the point (%r, %r), %r vehicles passed by then"
                              % (f.__name__, l, t, x, float(w[int(t)]))))
                    break
            if len(a) and not abs(a[-1, 1] - w[-1]) <= 1e-6 * (1 + w[-1]):
                v.append(("rawcurve", "%s(%d) ends at %r, %r vehicles passed" % (f.__name__, l, float(a[-1, 1]), float(w[-1]))))
            if f.__name__.endswith("link_out_cc") and cls is not None:
                g = getattr(R.d, "get_%s_link_out_num" % ("car", "truck")[cls])
                for t in sorted(set([0, 1, T // 3, T // 2, T])):
                    if t <= T and not abs(g(l, float(t)) - w[t]) <= 1e-6 * (1 + w[t]):
                        v.append(("outnum", "%s(%d, %d) is %r, %r vehicles had left"
                                  % (g.__name__, l, t, g(l, float(t)), float(w[t]))))
    # inflow queries agree with the curves
    if T >= 1:
        rng = np.random.RandomState(zlib.crc32(str(R.s["seed"]).encode()))
        q = [(0, T)]
        for _ in range(6):
            a = int(rng.randint(0, T))
            b = int(rng.randint(a + 1, T + 1))
            q.append((a, b))
        q = [x for x in q if x[0] < T and x[1] <= T]
        a = np.array([x[0] for x in q])
        b = np.array([x[1] for x in q])
        for cls in R.classes:
            I = R.in_ccs(cls)
            f = R.d.get_link_inflow if not R.mc else (R.d.get_link_car_inflow if cls == 0 else R.d.get_link_truck_inflow)
            got = f(a, b)
            for i, l in enumerate(R.reg):
                for j in range(len(q)):
                    w = I[b[j], i] - I[a[j], i]
                    if not abs(got[i, j] - w) <= 1e-6 * (1 + abs(w)):
                        v.append(("inflow", "inflow of link %d over [%d,%d) is %r, the curve says %r"
                                  % (l, a[j], b[j], float(got[i, j]), float(w))))
    return _cap(v)


# ---------------------------------------------------------------------- demand
def expected_demand(s):
    """[(tick, onode, dnode, cls, simulated vehicles (real number))]"""
    on = dict((a, b) for a, b in s["orig"])
    dn = dict((a, b) for a, b in s["dest"])
    e = []
    if s["kind"] == "dta":
        for o, d, q, _ in s["demand"]:
            for k in range(s["start"], s["maxi"]):
                e.append(((k - s["start"]) * s["frq"], on[o], dn[d], None, q[k] * s["scalar"]))
        return e
    pm = 60 // s["ut"]
    nm = s["frq"] // pm
    for o, d, qc, qt in s["demand"]:
        for cls, q in ((0, qc), (1, qt)):
            for k in range(s["maxi"]):
                row = [0.0] * nm
                if s["split"] == 0:
                    row[0] = q[k]
                else:
                    for p in range(nm):
                        x = q[k] / float(nm - p)
                        if math.floor(x * s["scalar"]) >= 1:
                            row[:nm - p] = [x] * (nm - p)
                            break
                for m in range(nm):
                    t = (k * nm + m - s["start"]) * pm
                    if t >= 0:
                        e.append((t, on[o], dn[d], cls, row[m] * s["scalar"]))
    return e


def demand(R):
    v = []
    s, tr = R.s, R.tr
    got = {}
    for q in tr.veh.values():
        k = (q["birth"], q["o"], q["d"], q["cls"] if R.mc else None)
        got[k] = got.get(k, 0) + 1
        if q["start"] != q["birth"]:
            v.append(("start", "vehicle %d entered at interval %d but its departure time says %d"
                      % (q["id"], q["birth"], q["start"])))
        if q["assign"] != q["birth"] // s["frq"]:
            v.append(("assign", "vehicle %d entered at interval %d but its assignment interval says %d"
                      % (q["id"], q["birth"], q["assign"])))
    seen = set()
    for t, o, d, c, x in expected_demand(s):
        k = (t, o, d, c)
        seen.add(k)
        n = got.get(k, 0)
        lo, hi = math.floor(x + 1e-7), math.ceil(x - 1e-7)
        if lo > hi:
            lo, hi = hi, lo
        if t >= tr.T:
            v.append(("short", "the run stopped after %d intervals, before the demand of interval %d" % (tr.T, t)))
            break
        if not (lo <= n <= hi):
            v.append(("demand", "OD %d->%d class %s interval %d: %d vehicles released, demand is %.4f simulated "
                      "vehicles" % (o, d, c, t, n, x)))
    for k in got:
        if k not in seen:
            v.append(("extra", "OD %d->%d class %s: %d vehicles released at interval %d where there is no demand"
                      % (k[1], k[2], k[3], got[k], k[0])))
    # every vehicle starts its trip on a link leaving its origin
    for q in tr.veh.values():
        if q["trip"] and q["trip"][0][1] >= 0 and R.links[q["trip"][0][1]]["a"] != q["o"]:
            v.append(("from", "vehicle %d of origin node %d first appears on link %d" % (q["id"], q["o"],
                                                                                          q["trip"][0][1])))
    return _cap(v)


# ---------------------------------------------------------------------- routes
def node_seq(R, links):
    return [R.links[links[0]]["a"]] + [R.links[l]["b"] for l in links] if links else []


def routes(R):
    v = []
    s, tr = R.s, R.tr
    table = {}
    for p in s["paths"]:
        table.setdefault((p[0][0], p[0][-1]), []).append(p)
    fixed = s["routing"] in ("Fixed", "Hybrid", "Biclass_Hybrid")
    for q in tr.veh.values():
        tl = [l for _, l in q["trip"]]
        if any(l < 0 for l in tl):
            continue
        for (ta, a), (tb, b) in zip(q["trip"], q["trip"][1:]):
            if R.links[a]["b"] != R.links[b]["a"]:
                v.append(("jump", "vehicle %d moved from link %d to link %d, which are not adjacent" % (q["id"], a, b)))
            if tb <= ta:
                v.append(("warp", "vehicle %d crossed two links in interval %d" % (q["id"], tb)))
        if tl and R.links[tl[0]]["a"] != q["o"]:
            v.append(("from", "vehicle %d of origin node %d first appears on link %d" % (q["id"], q["o"], tl[0])))
        if q["death"] is not None and (not tl or R.links[tl[-1]]["b"] != q["d"]):
            v.append(("end", "vehicle %d left the network at the wrong place" % q["id"]))
        if fixed and q["type"] == 1 or s["routing"] == "Fixed":
            cand = table.get((q["o"], q["d"]), [])
            if not tl:
                continue
            ns = node_seq(R, tl)
            ok = [p for p in cand if p[0][:len(ns)] == ns and (q["death"] is None or len(p[0]) == len(ns))]
            if not ok:
                v.append(("offpath", "static vehicle %d went along nodes %s, no path of its OD pair in the table does"
                          % (q["id"], ns)))
                continue
            # paths whose share is zero at departure are not used (unless all are)
            row = q["birth"] // s["frq_fx"]
            if row < s["maxi"] and s["start"] == 0:
                ci = 2 if (R.mc and q["cls"] == 1) else 1
                w = [p[ci][row] for p in cand]
                if sum(w) > 0 and not any(p[ci][row] > 0 for p in ok):
                    v.append(("zeroshare", "vehicle %d (class %s, departed %d) follows nodes %s, whose share is zero in "
                              "that interval" % (q["id"], q["cls"], q["birth"], ns)))
        if not s["cyclic"] and len(set(tl)) != len(tl):
            v.append(("loop", "vehicle %d visited a link twice in an acyclic network" % q["id"]))
    return _cap(v)


# ------------------------------------------------------------------ statistics
def stats(R):
    v = []
    s, tr = R.s, R.tr
    sc = float(s["scalar"])
    T = tr.T
    g = [float(x) for x in R.d.get_travel_stats()]
    ut = s["ut"]
    rel = {}
    vht = {}
    enr = fin = 0
    for q in tr.veh.values():
        c = q["cls"] if R.mc else 0
        rel[c] = rel.get(c, 0) + 1
        end = q["death"] if q["death"] is not None else T
        vht[c] = vht.get(c, 0) + (end - q["start"])
        if q["death"] is None:
            enr += 1
        else:
            fin += 1
    if R.mc:
        want = [rel.get(0, 0) / sc, rel.get(1, 0) / sc, vht.get(0, 0) * ut / 3600.0 / sc, vht.get(1, 0) * ut / 3600.0 / sc]
        nm = ["cars released", "trucks released", "car hours", "truck hours"]
    else:
        want = [rel.get(0, 0) / sc, vht.get(0, 0) * ut / 3600.0 / sc, enr / sc, fin / sc]
        nm = ["released", "vehicle hours", "en route", "finished"]
    for a, b, n in zip(g, want, nm):
        if not abs(a - b) <= 1e-6 * (1 + abs(b)):
            v.append(("travelstats", "get_travel_stats reports %s = %r, the history has %r" % (n, a, b)))
    return v


def queues(R):
    """En-route and queue statistics (two-class API)."""
    v = []
    s, tr = R.s, R.tr
    if not R.mc or tr.T == 0:
        return v
    sc = float(s["scalar"])
    T = tr.T
    a = R.d.get_enroute_and_queue_veh_stats_agg()
    if a.shape != (T, 3):
        return [("qshape", "queue statistics have shape %s after %d intervals" % (a.shape, T))]
    nl = len(tr.links)
    fin = tr.sizes[:, :, 0].astype(float)
    q = np.zeros((T, nl))
    for k, l in enumerate(tr.links):
        o = tr.flows(l)[1]
        prev = np.concatenate([[0], fin[:-1, k]])
        q[:, k] = prev - o
    want_q = sum((q[:, k] for k, l in enumerate(tr.links) if R.links[l]["type"] != "PQ"), np.zeros(T)) / sc
    en = tr.counts[:, 1] / sc
    for nm, got, want in (("en route", a[:, 0], en), ("queued", a[:, 1], want_q), ("moving", a[:, 2], en - want_q)):
        bad = np.argwhere(np.abs(got - want) > 1e-6)
        if len(bad):
            t = int(bad[0][0])
            v.append(("qstats", "interval %d: %g vehicles reported %s, the history has %g" % (t, got[t], nm, want[t])))
    rr = random.Random(repr(s["seed"]))
    ts = rr.sample(range(T), rr.randrange(1, T + 1)) + [T - 1]
    ks = rr.sample(range(nl), rr.randrange(1, nl + 1)) if rr.random() < 0.5 else list(range(nl))
    g = R.d.get_queue_veh_each_link(np.array([tr.links[k] for k in ks], np.int32), np.array(ts, np.int32))
    if g.shape != (len(ks), len(ts)):
        return v + [("qshape", "per-link queues have shape %s" % (g.shape,))]
    for i, k in enumerate(ks):
        for j, t in enumerate(ts):
            if abs(g[i, j] - q[t, k] / sc) > 1e-6:
                v.append(("qlink", "interval %d: %g vehicles reported queued on link %d, the history has %g"
                          % (t, g[i, j], tr.links[k], q[t, k] / sc)))
                return v
    return v


def waits(R):
    """Average waiting time at link exits, and whether a link ever held more
    than its jam density (two-class API)."""
    import oracles2 as O2
    v = []
    s, tr = R.s, R.tr
    if not R.mc or tr.T == 0:
        return v
    sc, ut, T = float(s["scalar"]), float(s["ut"]), tr.T
    ex = tr.exits()
    order = R.reg
    a = [R.d.get_waiting_time_at_intersections(), R.d.get_waiting_time_at_intersections_car(),
         R.d.get_waiting_time_at_intersections_truck()]
    sp = R.d.get_link_spillback()
    if any(len(x) != len(order) for x in a + [sp]):
        return [("waitshape", "%d waiting times and %d spillback flags for %d registered links"
                 % (len(a[0]), len(sp), len(order)))]
    cls = {i: q["cls"] for i, q in tr.veh.items()}
    for k, lid in enumerate(order):
        w = [0, 0]
        for t in range(T):
            for i in ex[t][lid]:
                w[cls[i]] += 1
        n = [int(tr.flows(lid, c)[0].sum()) for c in (0, 1)]
        want = [(w[0] + w[1], n[0] + n[1]), (w[0], n[0]), (w[1], n[1])]
        for nm, g, (x, y) in zip(("", "car ", "truck "), a, want):
            x = x / sc * ut / (y / sc + 1e-6)
            if not abs(float(g[k]) - x) <= 1e-6 * (1 + x):
                v.append(("wait", "link %d: average %swaiting time %g s reported, the history has %g s"
                          % (lid, nm, float(g[k]), x)))
        must = may = False
        typ = R.links[lid]["type"]
        if typ != "PQ":
            hist = O2.raw_attrs(R, lid)
            nc = [np.cumsum(tr.flows(lid, c)[0].astype(int) - tr.flows(lid, c)[1].astype(int)) for c in (0, 1)]
            cells = max(1, int(hist[0][1]["len"] / (hist[0][1]["c"][0] * ut))) if typ == "CTM" else 1
            h = 0
            for t in range(T):
                while h + 1 < len(hist) and hist[h + 1][0] <= t:
                    h += 1
                at = hist[h][1]
                L = at["len"]
                if typ == "CTM":        # a link shorter than one cell counts as one cell
                    L = max(L, hist[0][1]["c"][0] * ut)
                room = at["c"][2] * at["lanes"] * L * sc
                x = float(nc[0][t]) + at["conv"] * float(nc[1][t])
                whole = float(at["conv"]).is_integer()
                must |= x - (0 if whole else cells) > room * (1 + 1e-9)
                may |= x > room * (1 - 1e-9)
        if (must and not sp[k]) or (sp[k] and not may):
            v.append(("spillback", "link %d (%s): spillback %s reported, but its vehicles %s its jam density"
                      % (lid, typ, "" if sp[k] else "not", "exceeded" if must else "never exceeded")))
    return v[:4]


# ------------------------------------------------------------------ travel time
def min_ticks(R, l):
    x = l["len"] / l["ffs"] * 3600.0 / R.s["ut"]
    if l["type"] == "LQ":
        return 1
    if R.s["td"]:
        return 1
    return max(1, int(math.floor(x - 1e-6)))


def freeflow(R):
    v = []
    mt = {i: min_ticks(R, l) for i, l in R.links.items()}
    for q in R.tr.veh.values():
        tp = q["trip"]
        for k, (t, l) in enumerate(tp):
            if l < 0:
                continue
            out = tp[k + 1][0] if k + 1 < len(tp) else q["death"]
            if out is not None and out - t < mt[l]:
                v.append(("toofast", "vehicle %d crossed link %d in %d intervals, free flow takes %d"
                          % (q["id"], l, out - t, mt[l])))
                return v
    return v


def fftt_loading(R, l, cls):
    """Free-flow intervals below which no travel time may be reported."""
    s = R.s
    x = l["len"] / l["ffs"] * 3600.0 / s["ut"]
    n = max(1, int(math.floor(x - 1e-6)))
    n2 = max(1, int(math.floor(x + 1e-6)))
    if l["type"] == "LQ":
        f = l["ffs_t"] if cls == 1 else l["ffs"]
        x = l["len"] / f * 3600.0 / s["ut"]
        return {max(1, int(math.ceil(x - 2e-4 * x))), max(1, int(math.ceil(x + 1e-6)))}
    if l["type"] == "CTM" and cls == 1:
        r = l["ffs"] / float(l["ffs_t"])
        return {int(n * r - 1e-6), int(n * r), int(n * r + 1e-6), int(n2 * r + 1e-6)}
    return {n, n2}


def ref_tt(I, O, x, fftt):
    """(lo, hi) in intervals for a departure recorded at curve time x."""
    n = len(I) - 1
    end = O[-1]
    if abs(I[-1] - end) < 1e-6:
        lv = n
    elif end <= 1e-9:
        return fftt, fftt
    else:
        lv = int(np.nonzero(I <= end + 1e-6)[0][-1])
    x = min(x, lv)
    F = I[x]
    if F <= 1e-9 or lv <= 0:
        return fftt, fftt
    up = np.nonzero(O >= F - 1e-6)[0]
    if not len(up):
        return fftt, fftt
    e1 = int(up[0])
    if abs(O[e1] - F) < 1e-6:
        e0 = e1
    else:
        lvl = O[e1 - 1] if e1 > 0 else 0
        e0 = int(np.nonzero(O >= lvl - 1e-6)[0][0])
    return max(fftt, e0 - x), max(fftt, e1 - x)


def link_tt(R):
    v = []
    s, tr = R.s, R.tr
    T = tr.T
    if T == 0:
        return v
    rng = np.random.RandomState(len(s["links"]) * 131 + T)
    xs = rng.permutation(np.unique(rng.randint(0, T, size=min(T, 12))))
    for cls in R.classes:
        if R.mc:
            f = R.d.get_car_link_tt if cls == 0 else R.d.get_truck_link_tt
            got = f(xs.astype(float), False)
            inf = f(xs.astype(float), True)
        else:
            got = R.d.get_link_tt(xs.astype(np.int32), False)
            inf = R.d.get_link_tt(xs.astype(np.int32), True)
        for k, lid in enumerate(R.reg):
            l = R.links[lid]
            if s["td"]:
                continue
            fi, fo = tr.flows(lid, cls)
            I = np.concatenate([[0], np.cumsum(fi)])
            Oc = np.concatenate([[0], np.cumsum(fo)])
            ff = l["len"] / (l["ffs_t"] if cls == 1 else l["ffs"]) * 3600.0
            if R.mc and l["type"] == "CTM":
                # a link shorter than a cell is stretched to one
                ff = max(ff, s["ut"] * (l["ffs"] / float(l["ffs_t"] if cls == 1 else l["ffs"])))
            ub = 20.0 * ff
            for j, x in enumerate(xs):
                ok = False
                alts = []
                for fft in fftt_loading(R, l, cls):
                    lo, hi = ref_tt(I, Oc, int(x) + 1, fft)
                    lo, hi = lo * s["ut"], hi * s["ut"]
                    alts.append((lo, hi))
                    g, gi = got[k, j], inf[k, j]
                    if min(lo, ub) - 1e-6 * (1 + lo) <= g <= min(hi, ub) + 1e-6 * (1 + hi):
                        if hi > ub * (1 + 1e-6) and lo > ub * (1 + 1e-6):
                            ok = ok or math.isinf(gi)
                        elif hi < ub * (1 - 1e-6):
                            ok = ok or abs(gi - g) < 1e-6
                        else:
                            ok = True
                if not ok:
                    v.append(("linktt", "link %d (%s, class %s): travel time for departure at %d reported as %r s (%r with "
                              "infinity), the curves give %s s, ceiling %g s"
                              % (lid, l["type"], cls, x, float(got[k, j]), float(inf[k, j]), alts, ub)))
                    return v
    return v


def derived_tt(R):
    """Averages, speeds and free-flow times against the link travel times."""
    v = []
    s, tr = R.s, R.tr
    T = tr.T
    if T < 2:
        return v
    # asked in any order
    xs = np.random.RandomState(len(s["links"]) * 137 + T).permutation(T)
    inv = np.argsort(xs)
    reg = np.array(R.reg, np.int32)
    wins = []
    for n in (1, 2, 3, 5):
        for a in (0, T // 3, max(0, T - 2 * n), T - n):
            for m in (1, 2, 4):
                if a >= 0 and a + n * m <= T and (a, a + n * m, n) not in wins:
                    wins.append((a, a + n * m, n))
    for cls in R.classes:
        nm = "" if not R.mc else ("car " if cls == 0 else "truck ")
        if R.mc:
            c = "car" if cls == 0 else "truck"
            f, g = getattr(R.d, "get_%s_link_tt" % c), getattr(R.d, "get_%s_link_tt_robust" % c)
            tt, ti = f(xs.astype(float), False), f(xs.astype(float), True)
        else:
            g = R.d.get_link_tt_robust
            tt, ti = R.d.get_link_tt(xs.astype(np.int32), False), R.d.get_link_tt(xs.astype(np.int32), True)
        tt, ti = tt[:, inv], ti[:, inv]
        for n in (1, 2, 3, 5):
            w = [x for x in wins if x[2] == n]
            if not w:
                continue
            got = g(np.array([x[0] for x in w], float), np.array([x[1] for x in w], float), n, False)
            if got.shape != (len(reg), len(w)):
                return [("ttshape", "average travel times have shape %s" % (got.shape,))]
            for k, lid in enumerate(R.reg):
                for j, (a, b, _) in enumerate(w):
                    z = ti[k, a:b:(b - a) // n]
                    if not np.all(np.isfinite(z)):
                        continue
                    if abs(got[k, j] - z.mean()) > 1e-6 * (1 + z.mean()):
                        v.append(("robust", "link %d: average %stravel time of %d departures from %d to %d reported as %r s, the "
                                  "travel times are %s s" % (lid, nm, n, a, b, float(got[k, j]), z.tolist())))
                        return v
        if not R.mc:
            continue
        sp = getattr(R.d, "get_%s_link_speed" % c)(xs.astype(float))[:, inv]
        av = getattr(R.d, "get_avg_link_on_path_tt_%s" % c)(reg, xs[::3].astype(float))
        ff = getattr(R.d, "get_%s_link_fftt" % c)(reg)
        for k, lid in enumerate(R.reg):
            l = R.links[lid]
            m = tt[k, xs[::3]].mean()
            if abs(av[k] - m) > 1e-6 * (1 + m):
                v.append(("average", "link %d: mean %stravel time %r s reported, the travel times give %r s"
                          % (lid, nm, float(av[k]), float(m))))
            if s["td"]:
                continue
            if not any(abs(ff[k] - x * s["ut"]) <= 1e-6 * (1 + ff[k]) for x in fftt_loading(R, l, cls)):
                v.append(("fftt", "link %d: %sfree-flow time %r s reported, the attributes give %r s"
                          % (lid, nm, float(ff[k]), [x * s["ut"] for x in fftt_loading(R, l, cls)])))
            L = l["len"]
            if l["type"] == "CTM":
                L = max(L, l["ffs"] * s["ut"] / 3600.0)
            for t in range(T):
                if np.isfinite(ti[k, t]) and abs(sp[k, t] * ti[k, t] / 3600.0 - L) > 1e-6 * L:
                    v.append(("speed", "link %d, departure %d: %sspeed %r mph reported for %g miles in %r s"
                              % (lid, t, nm, float(sp[k, t]), L, float(ti[k, t]))))
                    break
    return v[:4]


# ------------------------------------------------------------------------- FIFO
def origin_order(R, n):
    """Between two releases (which draw the order anew) nobody is overtaken by
    a vehicle behind it in the queue of its origin that takes the same link."""
    s, tr = R.s, R.tr
    m = max(1, int(60 / s["ut"])) if R.mc else s["frq"]
    Q = tr.queues()
    for t in range(1, tr.T):
        if t % m == 0 or t % s["frq"] == 0:
            continue
        for o, q in Q[t - 1].items():
            if not q:
                continue
            left = set(Q[t].get(o, []))
            one = len(R.out.get(o, [])) == 1
            stay = {}
            for i in q:
                x = tr.veh[i]
                if not x["trip"] and not one:
                    continue
                if not one and not (x["type"] == 1 and s["routing"] != "Adaptive"):
                    continue
                l = R.out[o][0] if one else x["trip"][0][1]
                if i in left:
                    stay.setdefault((l, x["cls"]), i)
                else:
                    n["origin_moves"] = n.get("origin_moves", 0) + 1
                    if (l, x["cls"]) in stay:
                        return [("origin", "interval %d: vehicle %d leaves the queue of origin node %d for link %d, vehicle %d was ahead of "
                                 "it and stays" % (t, i, o, l, stay[(l, x["cls"])]))]
    return []


def fifo(R):
    v = []
    s, tr = R.s, R.tr
    per = {}
    for q in tr.veh.values():
        tp = q["trip"]
        for k, (t, l) in enumerate(tp):
            if l < 0:
                continue
            nxt = tp[k + 1] if k + 1 < len(tp) else ((q["death"], -1) if q["death"] is not None else None)
            head = R.links[l]["b"]
            if not (q["type"] == 1 and s["routing"] != "Adaptive" or len(R.out.get(head, [])) <= 1):
                continue
            if nxt is None:
                # still there: its next link is known only when there is one way on
                if len(R.out.get(head, [])) == 1:
                    to = R.out[head][0]
                elif len(R.out.get(head, [])) == 0:
                    to = -1
                else:
                    continue
                per.setdefault((l, q["cls"], to), []).append((t, 1 << 30, q["id"]))
            else:
                per.setdefault((l, q["cls"], nxt[1]), []).append((t, nxt[0], q["id"]))
    for (l, c, to), a in per.items():
        a.sort()
        best = -1      # latest exit among strictly earlier entries
        cur_t, cur_best, cur_id = None, -1, None
        bid = None
        for t, e, i in a:
            if t != cur_t:
                if cur_best > best:
                    best, bid = cur_best, cur_id
                cur_t, cur_best, cur_id = t, -1, None
            if e < best:
                v.append(("overtake", "link %d class %s towards %s: vehicle %d entered at %d and left at %d, vehicle %d entered "
                          "before it and left at %s" % (l, c, to, i, t, e, bid, best if best < (1 << 30) else "never")))
                return v
            if e > cur_best:
                cur_best, cur_id = e, i
    return v


# --------------------------------------------------------------------- capacity
def capacity(R):
    v = []
    s, tr = R.s, R.tr
    ut, sc = s["ut"], s["scalar"]
    nin = {}
    for l in R.links.values():
        nin[l["a"]] = nin.get(l["a"], 0)
        nin[l["b"]] = nin.get(l["b"], 0) + 1
    nconv = {n[0]: n[2] for n in s["nodes"]}
    onodes = set(n for _, n in s["orig"])
    for lid, l in R.links.items():
        cap = l["cap"]
        lanes = l["lanes"]
        if s["td"]:
            continue
        if l["type"] == "CTM":
            cap = min(cap, 3500)
        if not R.mc:
            fi, fo = tr.flows(lid)
            x = cap / 3600.0 * lanes * ut * sc
            if l["type"] == "PQ":
                b = math.ceil(x - 1e-6)
            elif l["type"] == "CTM":
                b = max(1, math.floor(x + 1e-6))
            else:
                b = max(1, math.floor(x + 1e-6))
            if tr.T and fi.max() > b:
                t = int(fi.argmax())
                v.append(("inflow", "link %d (%s): %d simulated vehicles entered in interval %d, its capacity is %.3f"
                          % (lid, l["type"], fi[t], t, x)))
            if l["type"] == "LQ" and tr.T:
                b = max(1, math.ceil(x - 1e-6))
                if fo.max() > b:
                    t = int(fo.argmax())
                    v.append(("outflow", "link %d (LQ): %d simulated vehicles left in interval %d, its capacity is %.3f"
                              % (lid, fo[t], t, x)))
            # storage
            on = np.cumsum(fi - fo)
            if l["type"] == "CTM" and tr.T:
                rh = min(l["rhoj"], 300)
                # whole cells; the last one is never shorter than a standard cell
                cells = max(1, int(math.floor(l["len"] / l["ffs"] * 3600.0 / ut + 1e-6)))
                std = l["ffs"] * ut / 3600.0
                length = max(l["len"], std * cells)
                hold = rh * lanes * length * sc
                slack = cells + max(1.0, x)
                if on.max() > hold + slack:
                    t = int(on.argmax())
                    v.append(("storage", "link %d (CTM): %d simulated vehicles on it at interval %d, it stores %.2f"
                              % (lid, on[t], t, hold)))
        else:
            c0, c1 = tr.flows(lid, 0), tr.flows(lid, 1)
            if not tr.T:
                continue
            conv = max(1.0, l["conv"])
            x = cap / 3600.0 * lanes * ut * sc
            # a node meters in its own car equivalents, a link fills in its own
            nc = max(1.0, nconv[l["a"]])
            pce = c0[0] + nc * c1[0]
            if l["type"] == "LQ":
                # each class has its own diagram, weighted by the space it takes
                x = max(x, conv * l["cap_t"] / 3600.0 * lanes * ut * sc)
                # past jam density of a class (the short-link relief allows it) the
                # split between the diagrams is undefined: nothing is promised there
                jam = lanes * l["len"] * sc
                oc = np.concatenate([[0], np.cumsum(c0[0] - c0[1])[:-1]])
                ot = np.concatenate([[0], np.cumsum(c1[0] - c1[1])[:-1]])
                pce = np.where((oc <= l["rhoj"] * jam) & (ot <= l["rhoj_t"] * jam), pce, 0)
            if l["type"] == "CTM":
                # receiving capacity is max(min(cap, w(kj-k)), w(kj-k)/4), see DESIGN
                rh = min(l["rhoj"], 400)
                w = cap / (rh - cap / l["ffs"])
                x = max(x, 0.25 * w * rh / 3600.0 * lanes * ut * sc)
                on = np.cumsum(c0[0] + conv * c1[0] - c0[1] - conv * c1[1])
                cells = max(1, int(math.floor(l["len"] / l["ffs"] * 3600.0 / ut + 1e-6)))
                std = l["ffs"] * ut / 3600.0
                hold = max(rh, conv * l["rhoj_t"]) * lanes * max(l["len"], std * cells) * sc
                slack = (cells + 2 + max(1, nin.get(l["a"], 1))) * conv + max(1.0, x) * max(1.0, conv / nc)
                if on.max() > hold + slack:
                    t = int(on.argmax())
                    v.append(("storage", "link %d (CTM): %.2f car equivalents on it at interval %d, it stores %.2f"
                              % (lid, on[t], t, hold)))
            b = max(1.0, x) + max(1, nin.get(l["a"], 1)) * nc
            if l["a"] in onodes:      # origins release whole vehicles of either class
                pce = c0[0] + c1[0]
                b = max(1, math.ceil(x - 1e-6))
            if pce.max() > b + 1e-6:
                t = int(pce.argmax())
                v.append(("inflow", "link %d (%s): %.2f car equivalents entered in interval %d, its capacity is %.3f"
                          % (lid, l["type"], pce[t], t, x)))
    return _cap(v)


# --------------------------------------------------------------------- progress
def span(s):
    """Intervals over which demand is released."""
    if s["kind"] == "dta":
        return (s["maxi"] - s["start"]) * s["frq"]
    pm = 60 // s["ut"]
    return (s["maxi"] * (s["frq"] // pm) - s["start"]) * pm


def progress(R):
    v = []
    s, tr = R.s, R.tr
    T = tr.T
    sp = span(s)
    if s["total"] > 0:
        want = max(s["total"], sp)
        if T != want:
            v.append(("horizon", "the run took %d intervals, the configured horizon is %d (demand ends at %d)"
                      % (T, s["total"], sp)))
    else:
        if T < sp:
            v.append(("horizon", "the run stopped at interval %d, demand is released until %d" % (T, sp)))
        elif T > max(sp, 1) and T >= 2 and tr.counts[T - 2, 1] == 0:
            v.append(("late", "the run went on to %d although the network was empty before" % T))
        if T and tr.counts[T - 1, 1] != 0:
            v.append(("undrained", "the run ended at %d with %d vehicles en route" % (T, tr.counts[T - 1, 1])))
    # no silence while vehicles are en route
    ev = np.zeros(T, bool)
    for a in (tr.births[:, 0], tr.moves[:, 0], tr.deaths[:, 0]):
        ev[a] = True
    gap = best = 0
    at = 0
    for t in range(T):
        if ev[t] or tr.counts[t, 1] == 0:
            gap = 0
        else:
            gap += 1
            if gap > best:
                best, at = gap, t
    lim = stall_limit(R)
    if not s["cyclic"] and best > lim:
        v.append(("stall", "nothing moved for %d intervals up to %d while %d vehicles were en route (limit %d)"
                  % (best, at, tr.counts[at, 1], lim)))
    R.best_gap = best
    return v


def stall_limit(R):
    s = R.s
    m = 1
    for l in R.links.values():
        f = min(l["ffs"], l.get("ffs_t", l["ffs"])) or 1
        m = max(m, l["len"] / f * 3600.0 / s["ut"])
    return int(40 * (m + 2)) + 400


# ------------------------------------------------------------------ composition
def log_binom_tail(n, k, p):
    """log of an upper bound (Chernoff) on P(Bin(n,p) is at least as extreme as k)."""
    if n == 0:
        return 0.0
    f = k / float(n)
    if p <= 0:
        return 0.0 if k == 0 else -1e9
    if p >= 1:
        return 0.0 if k == n else -1e9
    d = 0.0
    if f > 0:
        d += f * math.log(f / p)
    if f < 1:
        d += (1 - f) * math.log((1 - f) / (1 - p))
    return -n * d


RARE = math.log(1e-11)


def composition(R):
    v = []
    s, tr = R.s, R.tr
    uni = s["sim"]["pol"] == 0
    on = R.node_o
    dn = R.node_d
    tdad = {}
    for q in (s["tdad"] or []):
        tdad[(q[0], q[1])] = q
    cnt = {}
    lab = {}
    pm = 60 // s["ut"]
    for q in tr.veh.values():
        o, d = on[q["o"]], dn[q["d"]]
        c = q["cls"] if R.mc else 0
        if s["routing"] == "Fixed":
            r = 0.0
        elif s["routing"] == "Adaptive":
            r = 1.0
        else:
            r = s["ad"][c if s["routing"] == "Biclass_Hybrid" else 0]
        if (o, d) in tdad:
            k = q["birth"] // s["frq"] + (s["start"] if not R.mc else 0)
            if R.mc:
                k = (q["birth"] // pm + s["start"]) // (s["frq"] // pm)
            r = tdad[(o, d)][2 + c][k]
        a, b = cnt.get((o, d, c, r), (0, 0))
        cnt[(o, d, c, r)] = (a + 1, b + (q["type"] == 0))
        if r == 0 and q["type"] != 1 or r == 1 and q["type"] != 0:
            v.append(("type", "vehicle %d of OD %d->%d class %d departing at %d is %s although the adaptive ratio is %g"
                      % (q["id"], o, d, c, q["birth"], "adaptive" if q["type"] == 0 else "static", r)))
        lab.setdefault((o, c), []).append(q)
    if uni:
        for (o, d, c, r), (n, k) in cnt.items():
            if 0 < r < 1 and log_binom_tail(n, k, r) < RARE:
                v.append(("ratio", "OD %d->%d class %d: %d of %d vehicles are adaptive, the ratio is %g" % (o, d, c, k, n, r)))
    rows = {q[0]: q for q in s["labels"]["rows"]} if s["labels"] else {}
    for (o, c), qs in lab.items():
        if not s["labels"]:
            w = [q for q in qs if q["label"] != -1]
            if w:
                v.append(("label", "vehicle %d has label %d, no labels are configured" % (w[0]["id"], w[0]["label"])))
            continue
        rat = rows[o][1 + c]
        tot = {}
        for q in qs:
            if not (0 <= q["label"] < len(rat)):
                if abs(sum(rat) - 1) < 1e-4:
                    v.append(("label", "vehicle %d of origin %d has no label (%d), the ratios are %s" % (q["id"], o, q["label"], rat)))
                    break
                continue
            if rat[q["label"]] <= 0:
                v.append(("label", "vehicle %d of origin %d class %d has label %d whose ratio is zero" % (q["id"], o, c, q["label"])))
                break
            tot[q["label"]] = tot.get(q["label"], 0) + 1
        if uni:
            for k in range(len(rat)):
                p = min(1, rat[k] + 3e-6) if tot.get(k, 0) > len(qs) * rat[k] else max(0, rat[k] - 3e-6)
                if 0 < p < 1 and log_binom_tail(len(qs), tot.get(k, 0), p) < RARE:
                    v.append(("labelratio", "origin %d class %d: %d of %d vehicles have label %d, its ratio is %g"
                              % (o, c, tot.get(k, 0), len(qs), k, rat[k])))
    return _cap(v)


def rounding(R):
    """Stochastic rounding of fractional demand is unbiased (uniform draws only)."""
    s, tr = R.s, R.tr
    if s["sim"]["pol"] != 0:
        return []
    got = {}
    for q in tr.veh.values():
        k = (q["birth"], q["o"], q["d"], q["cls"] if R.mc else None)
        got[k] = got.get(k, 0) + 1
    dev, k = 0.0, 0
    for t, o, d, c, x in expected_demand(s):
        if abs(x - round(x)) > 1e-9:
            dev += got.get((t, o, d, c), 0) - x
            k += 1
    if k and abs(dev) > math.sqrt(k / 2.0 * math.log(2e11)):
        return [("bias", "over %d fractional releases %.1f vehicles %s were released than demanded"
                 % (k, abs(dev), "more" if dev > 0 else "fewer"))]
    return []


def shares(R):
    """Route choice frequencies follow the table (uniform draws only)."""
    v = []
    s, tr = R.s, R.tr
    if s["sim"]["pol"] != 0 or s["start"] or not s["paths"] or s["routing"] not in ("Fixed", "Hybrid", "Biclass_Hybrid"):
        return v
    table = {}
    for p in s["paths"]:
        table.setdefault((p[0][0], p[0][-1]), []).append(p)
    cnt = {}
    for q in tr.veh.values():
        row = q["birth"] // s["frq_fx"]
        if row >= s["maxi"] or q["type"] != 1 or not q["trip"]:
            continue
        if q["death"] is None:
            continue
        ns = tuple(node_seq(R, [l for _, l in q["trip"]]))
        k = (q["o"], q["d"], q["cls"] if R.mc else 0, row)
        c = cnt.setdefault(k, {})
        c[ns] = c.get(ns, 0) + 1
    for (o, d, c, row), m in cnt.items():
        cand = table.get((o, d), [])
        w = [p[1 + c][row] for p in cand]
        if len(set(tuple(p[0]) for p in cand)) != len(cand):
            continue
        # only when every such vehicle finished (otherwise slow paths are under-represented)
        n = sum(m.values())
        allv = sum(1 for q in tr.veh.values() if (q["o"], q["d"], q["cls"] if R.mc else 0) == (o, d, c)
                   and q["birth"] // s["frq_fx"] == row and q["type"] == 1)
        if n != allv:
            continue
        tot = float(sum(w))
        for p, x in zip(cand, w):
            pr = x / tot if tot > 0 else 1.0 / len(cand)
            k = m.get(tuple(p[0]), 0)
            if 0 < pr < 1 and log_binom_tail(n, k, pr) < RARE:
                v.append(("share", "OD %d->%d class %d interval %d: %d of %d vehicles took path %s, its share is %.3f"
                          % (o, d, c, row, k, n, p[0], pr)))
    return _cap(v)
