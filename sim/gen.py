"""Abstract scenarios: generation (a pure function of the seed) and rendering.

A scenario is a JSON-able dict, so that it can be minimised, stored in a replay
file and executed again without the generator.
"""
import os
import random

CONNECTOR = dict(len=1, ffs=99999, cap=99999, rhoj=99999, lanes=1,
                 ffs_t=99999, cap_t=99999, rhoj_t=99999)


def _ids(r, n, wide=False):
    mode = r.random()
    if wide:
        return r.sample(range(1, 1000000), n)
    if mode < 0.4:
        ids = list(range(1, n + 1))
        if r.random() < 0.5:
            r.shuffle(ids)
        return ids
    return r.sample(range(1, 5 * n + 20), n)


def simple_paths(links, src, dst, limit, r):
    """Some simple node paths from src to dst (deterministic given r)."""
    adj = {}
    for l in links:
        adj.setdefault(l["a"], []).append(l["b"])
    out = []
    stack = [(src, [src])]
    steps = 0
    while stack and len(out) < 40 and steps < 4000:
        steps += 1
        u, p = stack.pop()
        if u == dst:
            out.append(p)
            continue
        for v in adj.get(u, []):
            if v not in p:
                stack.append((v, p + [v]))
    r.shuffle(out)
    return out[:limit]


def gen_link(r, mc, typ, ut, scalar, big=False):
    """One interior link with legal parameters for its model."""
    ffs = r.choice([15, 20, 25, 30, 35, 45, 55, 65])
    if r.random() < 0.3:
        ffs = round(r.uniform(12, 70), 2)
    lanes = r.choice([1, 1, 2, 3])
    cap = r.choice([300, 600, 900, 1200, 1800, 2200])
    if r.random() < 0.3:
        cap = round(r.uniform(200, 2400), 1)
    # at least one simulated vehicle per interval
    need = 3600.0 / (ut * scalar * lanes)
    cap = max(cap, round(need * 1.02 + 1, 1))
    kc = cap / float(ffs)
    rhoj = max(r.choice([40, 80, 120, 160, 200]), round(kc * r.uniform(2.3, 5.0), 1))
    if typ == "CTM":
        lim = 390.0 if mc else 290.0
        if rhoj > lim:
            rhoj = lim
            cap = min(cap, round(rhoj * ffs / 2.35, 1))
    cell = ffs * ut / 3600.0
    cells = r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8])
    frac = r.choice([0.02, 0.2, 0.5, 0.9, 0.98])
    ln = cell * (cells + frac)
    if r.random() < 0.1 and typ != "LQ":
        ln = cell * r.choice([0.3, 0.7, 0.95])
    ln = round(ln, 4)
    if typ == "PQ" and r.random() < 0.3:
        cap, rhoj = 99999, 99999
    d = dict(type=typ, len=ln, ffs=ffs, cap=cap, rhoj=rhoj, lanes=lanes)
    if mc:
        conv = r.choice([1.5, 2, 2.1, 3])
        ft = round(ffs * r.choice([0.6, 0.8, 0.95]), 2)
        ct = max(round(cap * r.choice([0.35, 0.5, 0.8]), 1), round(need * 1.02 + 1, 1))
        if cap >= 99999:
            ct, rt = 99999, 99999
        else:
            ct = min(ct, cap)
            rt = min(rhoj, max(round(rhoj / conv, 1), round(ct / ft * 2.2, 1)))
            if ct / ft * 1.05 >= rt:
                ct = round(rt * ft / 1.3, 1)
        d.update(ffs_t=ft, cap_t=ct, rhoj_t=rt, conv=conv)
    return d


def odd(s, links, r, mc, ut, p, low=False):
    """Capacities and jam densities the link models have to limit or to raise."""
    if r.random() >= p:
        return
    lim = 400.0 if mc else 300.0
    for l in links:
        x = r.random()
        if l["type"] == "PQ" or x < 0.4:
            continue
        need = 3600.0 / (ut * s["scalar"] * l["lanes"])
        if l["type"] == "CTM" and x < 0.6:
            l["rhoj"] = round(lim * r.choice([1.04, 1.5, 3]), 1)
            if mc and r.random() < 0.5:
                l["rhoj_t"] = round(lim * r.choice([1.04, 1.3]), 1)
                l["rhoj"] = max(l["rhoj"], l["rhoj_t"])
        elif l["type"] == "CTM" and x < 0.8 and l["ffs"] >= 32:
            l["cap"] = r.choice([3550, 4500, 9000])
            l["rhoj"] = max(l["rhoj"], round(min(lim, 3500.0 / l["ffs"] * 2.5), 1))
        elif low:
            s["low"] = 1
            l["cap"] = round(need * r.choice([0.3, 0.6, 0.95]), 2)
            if mc:
                l["cap_t"] = min(l["cap_t"], l["cap"])


PROFILES = {
    # name: knobs
    "base": {},
}


def gen(seed, kind=None, **k):
    r = random.Random("macposts-%s" % seed)
    mc = (kind or r.choice(["dta", "mcdta"])) == "mcdta"
    s = {"seed": seed, "kind": "mcdta" if mc else "dta"}
    # now and then one or two dimensions far beyond the usual size
    wide = set()
    if r.random() < k.get("wide", 0.12):
        wide = set(r.sample(["ids", "nodes", "ods", "slots", "long", "crowd", "scalar", "ut", "paths", "labels"], 2))
        for q in k.get("no_wide", ()):
            wide.discard(q)
    s["wide"] = sorted(wide)
    ut = r.choice(k.get("ut", [5, 5, 5, 6, 10, 15] if mc else [5, 5, 5, 6, 7, 10, 15, 30]))
    if "ut" in wide:
        ut = r.choice([1, 2, 3, 12, 20, 30, 60] if mc else [1, 2, 3, 11, 20, 45, 60])
    s["ut"] = ut
    per_min = 60 // ut
    if mc:
        s["frq"] = per_min * r.choice(k.get("minutes", [1, 2, 3, 15, 20, 30] if per_min <= 12 else [1]))
        if s["frq"] > 60:
            s["maxi"] = r.choice([1, 2])
        else:
            s["maxi"] = r.choice([1, 2, 3, 4, 6])
    else:
        s["frq"] = r.choice([1, 3, 6, 10, 12, 20, 24])
        s["maxi"] = r.choice([1, 2, 3, 4, 6, 8])
    if "slots" in wide:
        s["maxi"] = r.choice([10, 13, 16, 24])
        s["frq"] = per_min if mc else r.choice([1, 2, 3, 5, 7])
    s["scalar"] = r.choice(k.get("scalar", [1, 1, 2, 3, 4, 5, 10]))
    if "scalar" in wide:
        s["scalar"] = r.choice(([] if mc else [0.5]) + [1.5, 2.5, 7, 8, 20, 25])
    if ut <= 3:
        s["scalar"] = max(s["scalar"], 5)
    s["start"] = 0
    if k.get("start") and r.random() < 0.3 and s["maxi"] > 1:
        s["start"] = r.randrange(1, s["maxi"])
    elif k.get("start") is None and s["maxi"] > 1:
        q = random.Random("start-%s" % seed)
        if q.random() < 0.1:
            s["start"] = q.randrange(1, s["maxi"])
    s["split"] = r.choice([0, 1])
    span = s["frq"] * s["maxi"]
    # horizon
    mode = k.get("horizon") or r.choice(["drain", "drain", "fixed"])
    if mode == "drain":
        s["total"] = -1
    else:
        s["total"] = r.choice([max(1, span // 2), span, span + r.randrange(1, 60), span * 2 + 20])
        if "long" in wide:
            s["total"] = span + r.choice([257, 400, 700, 1030])
    # ---- topology: interior chain plus random forward (and, with a fixed
    # horizon, backward) links; origins before destinations
    n = r.choice(k.get("n", [1, 2, 2, 3, 3, 4, 5, 6]))
    no = r.choice(k.get("no", [1, 1, 2, 3]))
    nd = r.choice(k.get("nd", [1, 1, 2, 3]))
    if "nodes" in wide:
        n = r.choice([7, 8, 9, 11, 13])
    if "ods" in wide:
        no, nd = r.choice([(4, 4), (5, 2), (2, 6), (5, 5)])
    nid = _ids(r, n + no + nd, "ids" in wide)
    inner = nid[:n]
    onode = nid[n:n + no]
    dnode = nid[n + no:]
    conv = r.choice([1, 1.5, 2.1]) if mc else 1
    nodes = [[x, "FWJ", conv] for x in inner] + [[x, "DMOND", conv] for x in onode] + \
            [[x, "DMDND", conv] for x in dnode]
    r.shuffle(nodes)
    s["nodes"] = nodes
    types = k.get("types") or r.choice([["CTM"], ["LQ"], ["PQ"], ["CTM", "LQ", "PQ"], ["CTM", "LQ", "PQ"],
                                        ["CTM", "LQ", "PQ"], ["CTM", "PQ"], ["CTM", "LQ"], ["LQ", "PQ"]])
    pairs = [(i, i + 1) for i in range(n - 1)]
    for i in range(n):
        for j in range(i + 2, n):
            if r.random() < 0.35:
                pairs.append((i, j))
    cyc = k.get("cyclic", 0.25)
    s["cyclic"] = False
    if s["total"] > 0 and n >= 2 and r.random() < cyc:
        for _ in range(r.choice([1, 2])):
            j = r.randrange(1, n)
            i = r.randrange(0, j)
            if (j, i) not in pairs:
                pairs.append((j, i))
                s["cyclic"] = True
    cut = r.randrange(0, n)
    conn = []
    for o in onode:
        at = {r.randrange(0, cut + 1)}
        if r.random() < 0.3:
            at.add(r.randrange(0, cut + 1))
        conn += [(o, inner[a]) for a in sorted(at)]
    for d in dnode:
        at = {r.randrange(cut, n)}
        if r.random() < 0.3:
            at.add(r.randrange(cut, n))
        conn += [(inner[a], d) for a in sorted(at)]
    lid = _ids(r, len(pairs) + len(conn), "ids" in wide)
    links = []
    for (i, j), L in zip(pairs, lid):
        d = gen_link(r, mc, r.choice(types), ut, s["scalar"])
        d.update(id=L, a=inner[i], b=inner[j])
        links.append(d)
    odd(s, links, random.Random("odd-%s" % seed), mc, ut, k.get("odd", 0.12), k.get("odd_low"))
    for (a, b), L in zip(conn, lid[len(pairs):]):
        d = dict(CONNECTOR, type="PQ", id=L, a=a, b=b)
        if r.random() < k.get("tight_conn", 0.25):
            d["cap"] = round(3600.0 / (ut * s["scalar"]) * r.choice([1.01, 1.5, 2.3, 3, 6.6]), 2)
            d["cap_t"] = d["cap"]
        if r.random() < 0.3:
            c = r.choice([1, 2, 3, 5]) + r.choice([0.03, 0.5])
            d["ffs"] = 30
            d["ffs_t"] = 30
            d["len"] = round(30 * ut / 3600.0 * c, 4)
        if not mc:
            for q in ("ffs_t", "cap_t", "rhoj_t"):
                d.pop(q)
        else:
            d["conv"] = conv if conv >= 1 else 1
        links.append(d)
    r.shuffle(links)
    s["links"] = links
    s["orig"] = [[i, o] for i, o in zip(_ids(r, no, "ids" in wide), onode)]
    s["dest"] = [[i, d] for i, d in zip(_ids(r, nd, "ids" in wide), dnode)]
    # ---- demand
    budget = k.get("budget", r.choice([30, 80, 200, 400]))
    if "crowd" in wide:
        budget = r.choice([900, 1800, 3000])
    ods = [(o[0], d[0]) for o in s["orig"] for d in s["dest"]]
    r.shuffle(ods)
    keep = max(1, int(round(len(ods) * r.choice([0.5, 1, 1]))))
    ods = ods[:keep]
    demand = []
    for (o, d) in ods:
        def prof(b):
            v = []
            for _ in range(s["maxi"]):
                x = r.random()
                if x < 0.25:
                    v.append(0)
                else:
                    q = b / float(len(ods) * s["maxi"]) / s["scalar"] * r.choice([0.2, 1, 1, 2.5])
                    v.append(int(q) if r.random() < 0.5 else round(q, r.choice([1, 2, 3])))
            return v
        cars = prof(budget)
        demand.append([o, d, cars, prof(budget * 0.4) if mc else []])
    s["demand"] = demand
    # ---- routing
    s["routing"] = r.choice(k.get("routing") or
                            (["Adaptive", "Biclass_Hybrid", "Biclass_Hybrid"] if mc else ["Adaptive", "Fixed", "Hybrid"]))
    s["ad"] = [r.choice([0, 0.2, 0.5, 0.8, 1]), r.choice([0, 0.3, 0.7, 1])]
    if s["routing"] == "Hybrid" and k.get("need_ad"):
        s["ad"][0] = max(s["ad"][0], 0.3)
    s["frq_ad"] = r.choice([1, 3, 7, 20, 60])
    s["frq_fx"] = s["frq"]
    if r.random() < 0.15:
        s["frq_fx"] = max(1, s["frq"] // 2)
    s["paths"] = []
    if s["routing"] in ("Fixed", "Hybrid", "Biclass_Hybrid"):
        on = dict((a, b) for a, b in s["orig"])
        dn = dict((a, b) for a, b in s["dest"])
        used = set(ods)
        for (o, d) in [(o[0], d[0]) for o in s["orig"] for d in s["dest"]]:
            if (o, d) not in used and r.random() < 0.5:
                continue
            ps = simple_paths(links, on[o], dn[d], 12 if "paths" in wide else r.choice([1, 2, 3, 4]), r)
            rows = []
            for p in ps:
                row = [p]
                for _c in range(2 if mc else 1):
                    row.append([r.choice([0, 0, 1, 2.5, 30, 70, 0.004]) for _ in range(s["maxi"])])
                if not mc:
                    row.append([])
                rows.append(row)
            if r.random() < 0.15:
                # only the proportions matter
                x = r.choice([1e-5, 1e-3, 0.04, 1000])
                for row in rows:
                    row[1:] = [[round(y * x, 9) for y in c] for c in row[1:]]
            s["paths"] += rows
        # the reader puts the rows of one OD pair together or not: any order is legal
        r.shuffle(s["paths"])
    # ---- labels, emission, recording
    s["labels"] = None
    if r.random() < k.get("labels", 0.35):
        m = r.choice([6, 8, 12] if "labels" in wide else [1, 2, 3, 4])
        def ratio():
            w = [r.choice([0, 1, 1, 2]) for _ in range(m)]
            if sum(w) == 0:
                w[r.randrange(m)] = 1
            t = float(sum(w))
            return [round(x / t, 6) for x in w]
        s["labels"] = {"n": m, "rows": [[o[0], ratio(), ratio()] for o in s["orig"]],
                       "ev": [r.randrange(0, m), r.randrange(0, m)]}
    s["tdad"] = None
    if s["routing"] in ("Hybrid", "Biclass_Hybrid") and max(s["ad"]) > 0 and s["ad"][0] > 0 and \
            r.random() < k.get("tdad", 0.25):
        rows = []
        for (o, d) in ods:
            if r.random() < 0.6:
                rows.append([o, d, [r.choice([0, 0.5, 1]) for _ in range(s["maxi"])],
                             [r.choice([0, 0.5, 1]) for _ in range(s["maxi"])]])
        if rows:
            s["tdad"] = rows
    s["emis"] = sorted(r.sample([l["id"] for l in links], r.randrange(0, len(links) + 1))) \
        if r.random() < k.get("emis", 0.3) else []
    s["rec"] = {"n": r.choice([1, 3, 5, 12]), "vol": 1, "vl": 0, "vr": 0, "tt": 1, "tl": 0, "tr": 0}
    if r.random() < k.get("rec", 0.1):
        for q in ("vl", "vr", "tl", "tr"):
            s["rec"][q] = r.choice([0, 1])
    s["td"] = None
    if mc and r.random() < k.get("td", 0.15):
        rows = []
        cand = [l for l in links if l["type"] != "PQ"] or []
        if cand:
            for _ in range(r.choice([1, 2, 4])):
                l = r.choice(cand)
                t = r.randrange(0, max(2, span))
                rows.append(td_row(r, l, t, k.get("td_rich")))
            # one row per (interval, link)
            rows = list({(q[0], q[1]): q for q in rows}.values())
            rows.sort()
            s["td"] = rows
    s["rng"] = r.randrange(1, 1 << 30)
    s["reg"] = None if r.random() < 0.6 else sorted(r.sample([l["id"] for l in links],
                                                            r.randrange(1, len(links) + 1)))
    s["noise"] = s["rng"] if s["rng"] % 7 == 0 else None
    if s["reg"] and s["rng"] & 2:
        random.Random(s["rng"]).shuffle(s["reg"])
    s["sim"] = {"pol": r.choice(k.get("pol", [0, 0, 0, 1, 2, 3, 4, 5])), "salt": r.randrange(1 << 30),
                "heap": r.choice([0, 1, 2, 3]), "hseed": r.randrange(1 << 30),
                "fill": r.choice([0, 0x5A, 0xA5, 0xFF, 0x3F, 0x7F])}
    # ---- tolls and value of time: these steer adaptive vehicles only
    s["toll"], s["vot"] = None, None
    if s["routing"] != "Fixed" and r.random() < k.get("toll", 0.2):
        ls = sorted(r.sample([l["id"] for l in links], r.randrange(1, len(links) + 1)))
        s["toll"] = [[l, r.choice([0, 0.05, 0.1, 0.25, 0.5, 1.5]), r.choice([0, 0.05, 0.3, 2])] for l in ls]
    if s["routing"] != "Fixed" and r.random() < 0.4:
        s["vot"] = r.choice([0, 5, 12.5, 20, 60, 240])
    return s


def tours(s, r):
    """Add vehicles that make several trips in turn (delivery tours)."""
    on, dn = dict(map(tuple, s["orig"])), dict(map(tuple, s["dest"]))
    m = []
    span = s["frq"] * s["maxi"]
    for _ in range(r.choice([1, 1, 2, 3])):
        seq = []
        for _k in range(r.choice([2, 2, 3, 4])):
            c = [d[0] for d in s["dest"] if not seq or d[0] != seq[-1][1]]
            if not c:
                break
            seq.append([r.choice(s["orig"])[0], r.choice(c)])
        if len(seq) > 1:
            q = [r.choice([0, 1, 2, 3.5]) for _ in range(s["maxi"])]
            m.append([seq, [round(x / s["scalar"] * r.choice([1, 1, 3]), 3) for x in q]])
    s["multi"] = m
    s["wait"] = {str(o[0]): r.choice([[], [0], [s["ut"]], [s["ut"] * 3], [s["ut"] * 7 + 2.5], [60]]) for o in s["orig"]}
    # every leg has paths
    have = {(p[0][0], p[0][-1]) for p in s["paths"]}
    for seq, _ in m:
        for o, d in seq:
            if (on[o], dn[d]) not in have:
                have.add((on[o], dn[d]))
                for p in simple_paths(s["links"], on[o], dn[d], r.choice([1, 2]), r):
                    s["paths"].append([p, [r.choice([0, 1, 2.5, 30]) for _ in range(s["maxi"])], []])


def electric(s, r):
    """Add charging stations and electric vehicles."""
    order = [n for n in s["nodes"] if n[1] == "FWJ"]
    inner = [n[0] for n in order]
    ids = {n[0] for n in s["nodes"]}
    lids = {l["id"] for l in s["links"]}
    cs, s["cslinks"] = [], []
    def link(a, b):
        i = r.choice([x for x in range(1, 4 * len(lids) + 40) if x not in lids])
        lids.add(i)
        c = dict(CONNECTOR, type="PQ", id=i, a=a, b=b)
        if r.random() < 0.4:
            c["ffs"], c["len"] = 30, round(30 * s["ut"] / 3600.0 * (r.choice([1, 2, 4]) + 0.03), 4)
        for q in ("ffs_t", "cap_t", "rhoj_t"):
            c.pop(q)
        s["links"].append(c)
        s["cslinks"].append(i)
    for _ in range(r.choice([1, 1, 2, 3])):
        i = r.choice([x for x in range(1, 4 * len(ids) + 40) if x not in ids])
        ids.add(i)
        # beside a junction, so that nobody else gains by passing through it
        at = r.choice(inner)
        link(at, i)
        link(i, at)
        price = r.choice([0, 50, 120])
        if r.random() < 0.3:
            # or beside a road, for a price that keeps others away
            nb = [l["b"] for l in s["links"] if l["a"] == at and l["b"] in inner]
            if nb:
                at2 = r.choice(nb)
                link(at2, i)
                link(i, at2)
                price = 20000
                for l in s["links"][-4:]:
                    if l["b"] == at:
                        s["links"].remove(l)
                        s["cslinks"].remove(l["id"])
        cs.append([i, r.choice([1, 1, 2, 4]), s["ut"] * r.choice([1, 2, 5, 12]) + r.choice([0, 2]), r.choice([0, 60]), price])
    s["cyclic"] = True
    full = r.choice([1.0, 2.0, 5.0, 200])
    s["ev"] = {"full": full, "start": round(full * r.choice([0.05, 0.1, 0.12, 0.3, 0.5, 1]), 4), "home": full, "cs": cs,
               "cand": None}
    if r.random() < 0.4:
        s["ev"]["cand"] = [[o[0], d[0]] + r.sample([c[0] for c in cs], r.randrange(0, len(cs) + 1))
                           for o in s["orig"] for d in s["dest"] if r.random() < 0.8]
        if not s["ev"]["cand"]:
            s["ev"]["cand"] = None
    s["wait"] = {o: (w or [0]) + [r.choice([0, 0.3, 0.7, 1])] for o, w in s["wait"].items()}


def td_row(r, l, t, rich=False):
    # interval link type length FFS_car Cap_car RHOJ_car Lane FFS_truck Cap_truck RHOJ_truck convert toll
    f = r.choice([0.5, 0.8, 1.0, 1.25])
    if rich:
        # lanes, jam densities, truck speed; on link queues also length and car speed
        g = r.choice([1.0, 1.1, 1.4])
        if l["type"] == "CTM" and min(l["ffs"], l["ffs_t"]) >= 20 and r.random() < 0.2:
            # beyond what the model admits
            f, g = r.choice([(1.0, 4.0), (3.0, 4.0)])
        lq = l["type"] == "LQ"
        ffs = l["ffs"] * (r.choice([1.0, 1.0, 1.5]) if lq else 1.0)
        fft = min(ffs, l["ffs_t"] * r.choice([1.0, 1.0, 1.25]))
        return [t, l["id"], l["type"], round(l["len"] * r.choice([1, 1, 1.5]), 4) if lq else l["len"], ffs,
                round(l["cap"] * f, 2), round(l["rhoj"] * g, 2), r.choice([l["lanes"], 1, 2, 3]), fft,
                round(l["cap_t"] * f, 2), round(l["rhoj_t"] * g, 2), l["conv"], r.choice([0, 0, 1.5])]
    return [t, l["id"], l["type"], l["len"], l["ffs"], round(l["cap"] * f, 2), l["rhoj"], l["lanes"],
            l["ffs_t"], round(l["cap_t"] * f, 2), l["rhoj_t"], l["conv"], r.choice([0, 0, 1.5])]


# ------------------------------------------------------------------ rendering
def _f(x):
    if isinstance(x, float):
        if x == int(x):
            return "%d" % int(x)
        return repr(x)
    return str(x)


def render(s):
    """Scenario -> {file name: text}."""
    mc = s["kind"] == "mcdta"
    rec = s["rec"]
    c = ["[DTA]", "network_name = Snap_graph", "unit_time = %d" % s["ut"], "total_interval = %d" % s["total"],
         "assign_frq = %d" % s["frq"], "start_assign_interval = %d" % s["start"],
         "max_interval = %d" % s["maxi"], "flow_scalar = %s" % _f(s["scalar"]),
         "num_of_link = %d" % len(s["links"]), "num_of_node = %d" % len(s["nodes"]),
         "num_of_O = %d" % len(s["orig"]), "num_of_D = %d" % len(s["dest"]), "OD_pair = %d" % len(s["demand"]),
         "routing_type = %s" % s["routing"], "init_demand_split = %d" % s["split"]]
    if s["routing"] in ("Hybrid",):
        c.append("adaptive_ratio = %s" % _f(s["ad"][0]))
    if s["routing"] == "Biclass_Hybrid":
        c += ["adaptive_ratio_car = %s" % _f(s["ad"][0]), "adaptive_ratio_truck = %s" % _f(s["ad"][1])]
    if s.get("multi") is not None:
        c.append("multi_OD_seq = %d" % len(s["multi"]))
    if s.get("ev"):
        e = s["ev"]
        c += ["EV_starting_range_roadside_charging = %s" % _f(e["start"]),
              "EV_starting_range_non_roadside_charging = %s" % _f(e["home"]), "EV_full_range = %s" % _f(e["full"]),
              "num_of_charging_station = %d" % len(e["cs"])]
    if s["labels"]:
        if mc:
            c += ["num_of_car_labels = %d" % s["labels"]["n"], "num_of_truck_labels = %d" % s["labels"]["n"],
                  "ev_label_car = %d" % s["labels"]["ev"][0], "ev_label_truck = %d" % s["labels"]["ev"][1]]
        else:
            c += ["num_of_vehicle_labels = %d" % s["labels"]["n"], "ev_label = %d" % s["labels"]["ev"][0]]
    c += ["", "[STAT]", "rec_mode = LRn", "rec_mode_para = %d" % rec["n"], "rec_folder = record",
          "rec_volume = %d" % rec["vol"], "volume_load_automatic_rec = %d" % rec["vl"],
          "volume_record_automatic_rec = %d" % rec["vr"], "rec_tt = %d" % rec["tt"],
          "tt_load_automatic_rec = %d" % rec["tl"], "tt_record_automatic_rec = %d" % rec["tr"], ""]
    if rec.get("grid"):
        c.insert(-1, "rec_gridlock = 1")
    c += ["[HYBRID]", "route_frq = %d" % s["frq_fx"], "", "[FIXED]", "path_file_name = path_table",
          "num_path = %d" % len(s["paths"]), "choice_portion = Buffer",
          "buffer_length = %d" % (s["maxi"] if not mc else s.get("buflen", s["maxi"])),
          "route_frq = %d" % s["frq_fx"], "", "[ADAPTIVE]", "route_frq = %d" % s["frq_ad"], ""]
    if s.get("vot") is not None:
        c.insert(-1, "vot = %s" % _f(s["vot"]))
    if s.get("toll"):
        c.insert(1, "num_of_tolled_link = %d" % len(s["toll"]))
    if s.get("due"):
        c += ["[DUE]"] + ["%s = %s" % kv for kv in sorted(s["due"].items())] + [""]
    f = {"config.conf": "\n".join(c)}
    f["Snap_graph"] = "".join("%d %d %d\n" % (l["id"], l["a"], l["b"]) for l in s["links"])
    if mc:
        f["MNM_input_node"] = "".join("%d %s %s\n" % (n[0], n[1], _f(n[2])) for n in s["nodes"])
        f["MNM_input_link"] = "".join("%d %s %s\n" % (l["id"], l["type"], " ".join(
            _f(l[q]) for q in ("len", "ffs", "cap", "rhoj", "lanes", "ffs_t", "cap_t", "rhoj_t", "conv")))
            for l in s["links"])
    else:
        f["MNM_input_node"] = "".join("%d %s\n" % (n[0], n[1]) for n in s["nodes"])
        f["MNM_input_link"] = "".join("%d %s %s\n" % (l["id"], l["type"], " ".join(
            _f(l[q]) for q in ("len", "ffs", "cap", "rhoj", "lanes"))) for l in s["links"])
    f["MNM_input_od"] = "# origins\n" + "".join("%d %d\n" % tuple(o) for o in s["orig"]) + \
        "# destinations\n" + "".join("%d %d\n" % tuple(d) for d in s["dest"])
    if s.get("wait"):
        # origins with a waiting time (and, for electric vehicles, the share that charges on the way)
        f["MNM_input_od"] = "# origins\n" + "".join(
            "%d %d%s\n" % (o[0], o[1], "".join(" " + _f(x) for x in s["wait"][str(o[0])])) for o in s["orig"]) + \
            "# destinations\n" + "".join("%d %d\n" % tuple(d) for d in s["dest"])
    if s.get("multi") is not None:
        f["MNM_input_multi_od_seq"] = "#sequence\n" + "".join(
            " ".join("%d %d" % tuple(x) for x in m[0]) + "\n" for m in s["multi"])
        f["MNM_input_multi_od_seq_demand"] = "#demand\n" + "".join(
            " ".join(_f(x) for x in m[1]) + "\n" for m in s["multi"])
    if s.get("ev"):
        f["MNM_input_charging_station"] = "#id slots charging waiting price\n" + "".join(
            " ".join(_f(x) for x in q) + "\n" for q in s["ev"]["cs"])
        if s["ev"]["cand"] is not None:
            f["MNM_input_candidate_charging_station"] = "#o d stations\n" + "".join(
                " ".join(str(x) for x in q) + "\n" for q in s["ev"]["cand"])
    f["MNM_input_demand"] = "".join("%d %d %s\n" % (d[0], d[1], " ".join(_f(x) for x in d[2] + d[3]))
                                    for d in s["demand"])
    if s["paths"]:
        f["path_table"] = "".join(" ".join(str(x) for x in p[0]) + "\n" for p in s["paths"])
        f["path_table_buffer"] = "".join(" ".join(_f(x) for x in p[1] + p[2]) + "\n" for p in s["paths"])
    if s["labels"]:
        n = s["labels"]["n"]
        rows = s["labels"]["rows"]
        hdr = "#origin_ID " + " ".join("label_%d" % i for i in range(n)) + "\n"
        if mc:
            f["MNM_origin_label_car"] = hdr + "".join("%d %s\n" % (q[0], " ".join(_f(x) for x in q[1])) for q in rows)
            f["MNM_origin_label_truck"] = hdr + "".join("%d %s\n" % (q[0], " ".join(_f(x) for x in q[2])) for q in rows)
        else:
            f["MNM_input_origin_vehicle_label"] = hdr + "".join("%d %s\n" % (q[0], " ".join(_f(x) for x in q[1])) for q in rows)
    if s["tdad"]:
        f["MNM_input_od_td_adaptive_ratio"] = "#O D ratios\n" + "".join(
            "%d %d %s\n" % (q[0], q[1], " ".join(_f(x) for x in (q[2] + (q[3] if mc else [])))) for q in s["tdad"])
    if s["emis"]:
        f["MNM_input_emission_linkID"] = "".join("%d\n" % x for x in s["emis"])
    if s.get("toll"):
        f["MNM_input_link_toll"] = "#link toll\n" + "".join(
            " ".join(_f(x) for x in (q if mc else q[:2])) + "\n" for q in s["toll"])
    if s["td"]:
        f["MNM_input_link_td_attribute"] = "#interval link attrs\n" + "".join(
            " ".join(_f(x) for x in q) + "\n" for q in s["td"])
    # comment lines, empty lines and outer blanks, where the readers allow them; the graph in an order of its own
    if s.get("noise") and not s.get("multi") and not s.get("wait"):
        for name in ("Snap_graph", "MNM_input_node", "MNM_input_link", "MNM_input_od", "MNM_input_demand", "path_table",
                     "path_table_buffer"):
            if name in f:
                f[name] = _noise(f[name], random.Random("%s/%s" % (s["noise"], name)), name == "Snap_graph")
    return f


def _noise(text, r, shuffle):
    rows = text.split("\n")[:-1]
    if shuffle:
        r.shuffle(rows)
    out = []
    for x in rows:
        while r.random() < 0.2:
            out.append(r.choice(["", "#", "# 1 2 3", "  ", "\t", "#x"]))
        out.append(r.choice(["", "", " ", "\t"]) + x + r.choice(["", "", " ", "  ", "\t", "\r"]))
    return "\n".join(out) + "\n"


def write(s, root):
    os.makedirs(os.path.join(root, "record"), exist_ok=True)
    for name, text in render(s).items():
        with open(os.path.join(root, name), "w") as fh:
            fh.write(text)
