"""Oracles for the record files and the emission totals: both are recomputed
from the recorded movements and the link parameters of the input."""
import math
import os
import re
import resource

import numpy as np

MAXCOST = 3600.0


# ------------------------------------------------------------ link parameters
def attrs(R, lid):
    """[(from interval, attributes in metres and seconds)] of a link."""
    s = R.s
    l = R.links[lid]
    out = [(-1, l)]
    for q in (s["td"] or []):
        if q[1] == lid:
            out.append((q[0], dict(l, type=q[2], len=q[3], ffs=q[4], cap=q[5], rhoj=q[6], lanes=q[7], ffs_t=q[8],
                                   cap_t=q[9], rhoj_t=q[10], conv=q[11], toll=q[12])))
    out.sort(key=lambda x: x[0])
    return [(t, si(R, a)) for t, a in out]


def si(R, l):
    mc, ut, sc = R.mc, float(R.s["ut"]), float(R.s["scalar"])
    lim = 400.0 if mc else 300.0
    typ = l["type"]
    a = {"type": typ, "lanes": l["lanes"], "len": l["len"] * 1600.0}
    for c, x in (("c", ""), ("t", "_t"))[:2 if mc else 1]:
        ffs, cap, rj = l["ffs" + x] * 1600 / 3600.0, l["cap" + x] / 3600.0, l["rhoj" + x] / 1600.0
        if typ == "CTM":
            rj = min(rj, lim / 1600)
            cap = min(cap, 3500 / 3600.0)
        if mc and typ == "CTM":
            cap = max(cap, 1.0 / (ut * sc * l["lanes"]))
        if typ == "LQ":
            cap = max(cap, 1.0 / (ut * sc) / l["lanes"])
        a[c] = (ffs, cap, rj)
    if mc and typ == "CTM" and math.floor(a["len"] / (a["c"][0] * ut)) == 0:
        a["len"] = a["c"][0] * ut
    a["eps"] = 0.001 if typ == "CTM" else 2.220446049250313e-16
    return a


def fd_tt(R, a, n, cls):
    """Travel time (s) of the fundamental diagram with n real vehicles on the
    link, parameters of class cls ('c'/'t'); a (low, high) interval because a
    density on a break point may be read either way."""
    ffs, cap, rj = a[cls]
    L = a["len"]
    if R.mc and a["type"] == "PQ":
        t = L / a["c"][0]
        return t, t
    rho = n / a["lanes"] / L
    kc = cap / ffs

    def f(x):
        if x >= rj:
            return MAXCOST
        if x <= kc:
            return L / ffs
        return L / max(a["eps"] * ffs, cap * (rj - x) / ((rj - kc) * x))
    v = [f(rho * (1 + e)) for e in (-1e-10, 0, 1e-10)]
    if abs(rho / rj - 1) < 1e-9:
        v.append(L / (a["eps"] * ffs))
    return min(v), max(v)


def on_link(R, lid, cls=None):
    """vehicles (simulated) on the link at the end of each interval"""
    i, o = R.tr.flows(lid, cls)
    return np.cumsum(i) - np.cumsum(o)


def waiting(R, lid):
    """(low, high) simulated vehicles still in the entrance buffer of a
    point-queue link at the end of each interval: a node may hand it a vehicle
    more than its capacity admits in that interval (origins do, by rounding)."""
    T = R.tr.T
    l = R.links[lid]
    if l["type"] != "PQ":
        return np.zeros(T, int), np.zeros(T, int)
    i, _ = R.tr.flows(lid, None)
    K = l["cap"] / 3600.0 * l["lanes"] * R.s["ut"] * R.s["scalar"]
    f = math.ceil if R.mc else math.floor
    out = []
    for k in (f(K * (1 + 1e-9)), f(K * (1 - 1e-9))):
        w = np.zeros(T, int)
        x = 0
        for t in range(T):
            x = max(0, x + int(i[t]) - k)
            w[t] = x
        out.append(w)
    return out[0], out[1]


def counts(R, lid, cls=None):
    """(low, high) simulated vehicles on the link past its entrance."""
    n = on_link(R, lid, cls)
    wl, wh = waiting(R, lid)
    lo = np.maximum(0, n - wh)
    return lo, n - (wl if cls is None else 0)


def series(R, lid, what, cls):
    """(low, high) arrays over intervals -1..T-1."""
    sc = float(R.s["scalar"])
    T = R.tr.T
    nl, nh = (np.concatenate([[0], x]) / sc for x in counts(R, lid, cls))
    if what == "vol":
        return nl, nh
    A = attrs(R, lid)
    lo, hi = np.zeros(T + 1), np.zeros(T + 1)
    memo = {}
    for k in range(T + 1):
        t = k - 1
        j = 0
        # row -1 is written after the attributes of interval 0 are in force
        for q in range(len(A)):
            if A[q][0] <= max(t, 0):
                j = q
        key = (j, nl[k], nh[k])
        if key not in memo:
            c = "t" if cls == 1 else "c"
            m = int(round((nh[k] - nl[k]) * sc))
            f = [fd_tt(R, A[j][1], nl[k] + q / sc, c) for q in range(m + 1)]
            memo[key] = (min(x[0] for x in f), max(x[1] for x in f))
        lo[k], hi[k] = memo[key]
    return lo, hi


def averaged(x, n):
    """rows of the record-interval file: [(timestamp, value)]"""
    out = []
    acc = 0.0
    for k, v in enumerate(x):
        t = k - 1
        if t % n == 0:
            out.append((t, v if t == 0 else acc + v / n))
            acc = 0.0
        else:
            acc += v / n
    return out


def read_record(path):
    with open(path) as fh:
        text = fh.read()
    if not text.endswith("\n"):
        raise ValueError("the last row is incomplete")
    rows = text.split("\n")[:-1]
    h = rows[0].split()
    if h[0] != "Interval":
        raise ValueError("header %r" % rows[0][:40])
    ids = [int(x) for x in h[1:]]
    ts, vals = [], []
    for r in rows[1:]:
        f = r.split()
        if len(f) != len(ids) + 1:
            raise ValueError("row %r has %d fields for %d links" % (r[:40], len(f), len(ids)))
        ts.append(int(f[0]))
        vals.append([float(x) for x in f[1:]])
    return ids, ts, np.array(vals, float).reshape(len(ts), len(ids))


def records(R, root):
    v = []
    s, rec, T = R.s, R.s["rec"], R.tr.T
    folder = os.path.join(root, "record")
    want_files = set()
    for what, nm, lf, rf in (("vol", "volume", "vl", "vr"), ("tt", "tt", "tl", "tr")):
        if not rec[what]:
            continue
        for flag, kind in ((lf, "load"), (rf, "record")):
            if not rec[flag]:
                continue
            for cls, suf in (((None, ""), (0, "_car"), (1, "_truck")) if R.mc else ((None, ""),)):
                name = "MNM_output_%s_interval_%s%s" % (kind, nm, suf)
                want_files.add(name)
                p = os.path.join(folder, name)
                if not os.path.exists(p):
                    v.append(("norecord", "record file %s was not written" % name))
                    continue
                try:
                    ids, ts, M = read_record(p)
                except Exception as e:
                    v.append(("format", "record file %s: %s" % (name, e)))
                    continue
                if sorted(ids) != sorted(R.links):
                    v.append(("columns", "record file %s has columns %s for links %s" % (name, ids, sorted(R.links))))
                    continue
                allt = list(range(-1, T))
                wt = allt if kind == "load" else [t for t in allt if t % rec["n"] == 0]
                if ts != wt:
                    v.append(("rows", "record file %s has rows %s.. (%d), expected %s.. (%d)"
                              % (name, ts[:4], len(ts), wt[:4], len(wt))))
                    continue
                for k, lid in enumerate(ids):
                    lo, hi = series(R, lid, what, cls)
                    if kind == "record":
                        lo = np.array([x for _, x in averaged(lo, rec["n"])])
                        hi = np.array([x for _, x in averaged(hi, rec["n"])])
                    tol = 1.1e-6 + 1e-9 * np.abs(hi)
                    bad = np.argwhere((M[:, k] < lo - tol) | (M[:, k] > hi + tol) | ~np.isfinite(M[:, k]))
                    if len(bad):
                        q = int(bad[0][0])
                        v.append(("record", "%s: link %d (%s) interval %d: %s recorded, the loading has %s"
                                  % (name, lid, R.links[lid]["type"], ts[q], repr(float(M[q, k])),
                                     repr(float(lo[q])) if lo[q] == hi[q] else "%r..%r" % (float(lo[q]), float(hi[q])))))
                        break
    got = set(f for f in os.listdir(folder) if "_interval_volume" in f or "_interval_tt" in f)
    if got - want_files:
        v.append(("extrarecord", "record files %s were not asked for" % sorted(got - want_files)))
    return v[:4]


# ------------------------------------------------------------------ emissions
def _poly(co, v):
    return sum(c * v ** k for k, c in enumerate(co))


FUEL = [-1.51623933, 2.96137050, -1.11752399e-01, 2.35409750e-03, -2.67383161e-05, 1.19102380e-07]
HC = [9.84559996919605, -1.82687242201925, 0.15792241257931, -0.00737871178398462, 0.000201135990745703,
      -3.23670086149171e-6, 2.92924270300974e-8, -1.27884474982285e-10, 1.61479076909784e-13]
CO = [4.12900319568868, -0.615061016205463, 0.047711166912908, -0.00170366500109581, 1.79281854904105e-5,
      5.97070024385679e-7, -2.12944112670644e-8, 2.53340626614398e-10, -1.08317411174986e-12]
NOX = [6.06514023873933, -1.07265851515536, 0.0895029037098895, -0.00374632777368871, 8.01942113220463e-5,
       -6.63892272105462e-7, -4.67202313364846e-9, 1.25335312366681e-10, -6.52009367269462e-13]
TRUCK = {"fuel": (1.53, 1.50, 1.55), "CO2": (1.53, 1.50, 1.55), "HC": (1.87, 2.41, 2.01), "CO": (3.97, 2.67, 5.01),
         "NOX": (7.32, 6.03, 5.75)}


def rates(v):
    fuel = max(1.0 / _poly(FUEL, v), 0)
    return {"fuel": fuel, "CO2": 8887 * fuel, "HC": max(_poly(HC, v), 0), "CO": max(_poly(CO, v), 0),
            "NOX": max(_poly(NOX, v), 0)}


def parse_emission(text):
    out = []
    for part in text.split("The emission stats")[1:]:
        d = {}
        for k, x in re.findall(r"([A-Za-z0-9 ]+): (-?[0-9.]+|-?nan|-?inf) (?:gallons|g|miles|hours|trips)", part):
            d[k.strip()] = float(x)
        out.append(d)
    return out


def emission(R, text):
    v = []
    s, tr = R.s, R.tr
    T, ut, sc = tr.T, float(s["ut"]), float(s["scalar"])
    listed = [x for x in s["emis"] if x in R.links]
    ev = (s["labels"]["ev"] if s["labels"] else [-2, -2])
    tot = [{}, {}]

    def add(c, k, lo, hi):
        a = tot[c].setdefault(k, [0.0, 0.0])
        a[0] += lo
        a[1] += hi
    trips = [set(), set()]
    cnt = {}
    for lid in listed:
        for c in ((0, 1) if R.mc else (0,)):
            cnt[(lid, c)] = [np.zeros(T + 1, int), np.zeros(T + 1, int)]
    for q in tr.veh.values():
        c = q["cls"] if R.mc else 0
        t_ = q["trip"]
        for k, (t, l) in enumerate(t_):
            if (l, c) not in cnt:
                continue
            e = 1 if q["label"] == ev[c] else 0
            out = t_[k + 1][0] if k + 1 < len(t_) else (q["death"] if q["death"] is not None else T)
            if out > t:
                cnt[(l, c)][e][t] += 1
                cnt[(l, c)][e][out] -= 1
                trips[c].add(q["id"])
    for lid in listed:
        lo, hi = series(R, lid, "tt", None)
        A = attrs(R, lid)
        wl, wh = waiting(R, lid)
        for c in ((0, 1) if R.mc else (0,)):
            nn = np.cumsum(cnt[(lid, c)][0])[:T] / sc
            ne = np.cumsum(cnt[(lid, c)][1])[:T] / sc
            memo = {}
            for t in range(T):
                if nn[t] == 0 and ne[t] == 0:
                    continue
                L = [a for f, a in A if f <= t][-1]["len"]
                key = (lo[t + 1], hi[t + 1], L)
                if key not in memo:
                    w = []
                    for tt in key[:2]:
                        sp = L / tt
                        mph = sp * 3600 / 1600
                        vv = min(max(mph, 5.0), 65.0)
                        r = rates(vv)
                        if c == 1:
                            # speed bands of the truck factors; a speed on the edge may be read either way
                            fs = {(0 if y < 25 else 1 if y < 55 else 2) for y in (vv * (1 - 1e-10), vv * (1 + 1e-10))}
                            w += [({k: r[k] * TRUCK[k][b] for k in r}, sp * ut / 1600) for b in fs]
                        else:
                            w.append((r, sp * ut / 1600))
                    memo[key] = w
                w = memo[key]
                # vehicles still in the entrance buffer do not count as travelling
                n = nn[t] + ne[t]
                h = wh[t] / sc
                n0, e0, a0 = max(0, nn[t] - h), max(0, ne[t] - h), max(0, n - h)
                a1 = n if R.mc else n - wl[t] / sc
                for k in ("fuel", "CO2", "HC", "CO", "NOX"):
                    x = [r[k] * m for r, m in w]
                    add(c, k, min(x) * n0, max(x) * nn[t])
                x = [m for _, m in w]
                add(c, "vmt", min(x) * a0, max(x) * a1)
                add(c, "evmt", min(x) * e0, max(x) * ne[t])
                add(c, "vht", ut * a0 / 3600, ut * a1 / 3600)
    got = parse_emission(text)
    if len(got) != (2 if R.mc else 1):
        return [("emitformat", "emission report has %d parts: %r" % (len(got), text[:80]))]
    for c, g in enumerate(got):
        nm = (["car", "truck"][c] + " ") if R.mc else ""
        K = [("fuel", "fuel"), ("CO2", "CO2"), ("HC", "HC"), ("CO", "CO"), ("NOX", "NOX")]
        if R.mc:
            w = ["Car", "Truck"][c]
            K += [("Total %s VMT" % w, "vmt"), ("EV %s VMT" % w, "evmt"), ("VHT", "vht")]
        else:
            K += [("Total VMT", "vmt"), ("EV VMT", "evmt")]
        for k, kk in K:
            if k not in g:
                v.append(("emitformat", "emission report lacks %s%s" % (nm, k)))
                continue
            lo, hi = tot[c].get(kk, [0.0, 0.0])
            tol = 2e-6 + 1e-7 * abs(hi)
            if not (lo - tol <= g[k] <= hi + tol):
                v.append(("emission", "emission report: %s%s = %r, recomputed from the movements %r"
                          % (nm, k, g[k], lo if lo == hi else (lo, hi))))
        if R.mc and g.get("number of trips") != len(trips[c]):
            v.append(("trips", "emission report counts %s %strips, %d vehicles used the listed links"
                      % (g.get("number of trips"), nm, len(trips[c]))))
    return v[:4]


# ------------------------------------------------------------------------ DAR
def entries(R):
    """(link, class) -> [(tick, path index, assignment interval)] of vehicles
    handed over by a junction (the curves of an origin connector are not split
    by path)."""
    out = {}
    origins = set(R.onode.values())
    for q in R.tr.veh.values():
        ph = q["paths"]
        for t, l in q["trip"]:
            if l < 0 or R.links[l]["a"] in origins:
                continue
            p = [x for w, x in ph if w <= t]
            out.setdefault((l, q["cls"] if R.mc else None), []).append((t, p[-1] if p else ph[0][1], q["assign"]))
    return out


def dar_model(R, paths, wins, cls, ent=None):
    """[path ID, assignment interval, link, window start, flow]"""
    sc = float(R.s["scalar"])
    ent = ent if ent is not None else entries(R)
    reg = set(paths)
    out = {}
    for l in R.reg:
        for t, p, a in ent.get((l, cls), ()):
            if p < 0:
                continue
            pid = R.tr.paths[p][0]
            if pid not in reg:
                continue
            for w, (x, y) in enumerate(wins):
                if x <= t < y:
                    k = (l, w, pid, a)
                    out[k] = out.get(k, 0) + 1
    return {k: n / sc for k, n in out.items()}


def dar(R, paths, wins):
    v = []
    s = R.s
    # path IDs number the rows of the path table
    for i, (pid, links) in enumerate(R.tr.paths):
        if not (0 <= pid < len(s["paths"])):
            v.append(("pathid", "a vehicle follows path ID %d, the table has %d rows" % (pid, len(s["paths"]))))
            return v
        ns = [R.links[links[0]]["a"]] + [R.links[l]["b"] for l in links]
        if ns != s["paths"][pid][0]:
            v.append(("pathid", "path ID %d runs along nodes %s, row %d of the table says %s"
                      % (pid, ns, pid, s["paths"][pid][0])))
            return v
    ent = entries(R)
    st = np.array([w[0] for w in wins], np.int32)
    en = np.array([w[1] for w in wins], np.int32)
    for cls in R.classes:
        nm = {None: "", 0: "car_", 1: "truck_"}[cls]
        want = dar_model(R, paths, wins, cls, ent)
        M = np.asarray(getattr(R.d, "get_%sdar_matrix" % nm)(st, en), float).reshape(-1, 5)
        rows = {}
        for (l, w, p, a), x in want.items():
            rows.setdefault((p, a, l, wins[w][0]), []).append(x)
        got = {}
        for r in M.tolist():
            got.setdefault(tuple(int(x) for x in r[:4]), []).append(r[4])
        for k in sorted(set(rows) | set(got)):
            a, b = sorted(rows.get(k, [])), sorted(got.get(k, []))
            if len(a) != len(b) or any(abs(x - y) > 1e-6 * (1 + abs(x)) for x, y in zip(a, b)):
                v.append(("dar", "%sDAR: path %d, departure interval %d, link %d, from %d: flow %s reported, %s entered"
                          % ((nm,) + k + (b, a))))
                break
    return v


def dar_complete(R, wins, f, save=None):
    """all paths registered; normalised matrix, and the file written by save_*"""
    v = []
    s = R.s
    n = len(s["paths"])
    nl = len(R.reg)
    ent = entries(R)
    st = np.array([w[0] for w in wins], np.int32)
    en = np.array([w[1] for w in wins], np.int32)
    for cls in R.classes:
        nm = {None: "", 0: "car_", 1: "truck_"}[cls]
        want = {}
        for (l, w, p, a), x in dar_model(R, range(n), wins, cls, ent).items():
            y = p + n * a
            want[(R.reg.index(l) + nl * w, y)] = x / f[y]
        for how in ("complete", "save"):
            got = {}
            if how == "complete":
                # the single-class call sets aside 16 GB of address space
                old = resource.getrlimit(resource.RLIMIT_AS)
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (old[1], old[1]))
                    m = getattr(R.d, "get_complete_%sdar_matrix" % nm)(st, en, s["maxi"], f).tocoo()
                except MemoryError:
                    if not R.mc:
                        continue
                    raise
                finally:
                    resource.setrlimit(resource.RLIMIT_AS, old)
                if m.shape != (s["maxi"] * nl, s["maxi"] * n):
                    v.append(("darshape", "complete %sDAR matrix has shape %s" % (nm, m.shape)))
                    continue
                tr = list(zip(m.row.tolist(), m.col.tolist(), m.data.tolist()))
                tol = 1e-9
            else:
                if not save:
                    continue
                p = save + nm
                getattr(R.d, "save_%sdar_matrix" % nm)(st, en, f, p)
                tr = []
                for line in open(p):
                    x, y, z = line.split(",")
                    tr.append((int(x), int(y), float(z)))
                tol = 1e-6
            for x, y, z in tr:
                if z:
                    got[(x, y)] = got.get((x, y), 0) + z
            for k in sorted(set(want) | set(got)):
                a, b = want.get(k, 0), got.get(k, 0)
                if abs(a - b) > tol * (1 + abs(a)):
                    v.append(("darfull", "%s %sDAR matrix at (%d, %d): %r, recomputed %r" % (how, nm, k[0], k[1], b, a)))
                    break
    return v


# ---------------------------------------------------------- adaptive vehicles
def toll_at(R, lid, t, cls=None):
    """toll of a link in interval t (as adaptive routing sees it)"""
    x = 0.0
    for q in (R.s.get("toll") or []):
        if q[0] == lid:
            x = float(q[2 if cls == 1 else 1])
    for q in (R.s["td"] or []):   # sorted by interval
        if q[1] == lid and q[0] <= t:
            x = float(q[12])
    return x


def bellman(R, d, cost):
    dist = {n[0]: math.inf for n in R.s["nodes"]}
    dist[d] = 0.0
    for _ in range(len(dist)):
        ch = False
        for l in R.s["links"]:
            x = cost[l["id"]] + dist[l["b"]]
            if x < dist[l["a"]]:
                dist[l["a"]] = x
                ch = True
        if not ch:
            break
    return dist


def adaptive(R, stat=None):
    """every link an adaptive vehicle takes starts a cheapest remaining route,
    by the travel times last recorded and the tolls in force at the last
    routing update"""
    s = R.s
    n, f = s["rec"]["n"], s["frq_ad"]
    vot = (20.0 if s.get("vot") is None else float(s["vot"])) / 3600.0
    need = {}
    for q in R.tr.veh.values():
        if s["routing"] != "Adaptive" and q["type"] == 1:
            continue
        for t, l in q["trip"]:
            if l >= 0:
                need.setdefault((t - t % f, q["d"]), {}).setdefault(l, (q["id"], t))
    if not need:
        return []
    lo, hi = {}, {}
    ts = None
    for l in s["links"]:
        a, b = series(R, l["id"], "tt", None)
        ts, lo[l["id"]] = zip(*averaged(a, n))
        hi[l["id"]] = [x for _, x in averaged(b, n)]
    rec = {t: k for k, t in enumerate(ts)}
    memo = {}
    for (u, d), took in sorted(need.items()):
        r = max([t for t in rec if t < u] or [None], key=lambda x: -2 if x is None else x)
        if r is None:
            continue   # nothing recorded yet
        if (u, d) not in memo:
            cl, ch = {}, {}
            for l in lo:
                x = toll_at(R, l, u)
                cl[l] = (vot * lo[l][rec[r]] + x) * (1 - 1e-6)
                ch[l] = (vot * hi[l][rec[r]] + x) * (1 + 1e-6)
            memo[(u, d)] = (cl, bellman(R, d, cl), bellman(R, d, ch))
        cl, dl, dh = memo[(u, d)]
        for l, (vid, t) in sorted(took.items()):
            a, b = R.links[l]["a"], R.links[l]["b"]
            if stat is not None:
                stat["decisions"] = stat.get("decisions", 0) + 1
                m = [x for x in s["links"] if x["a"] == a and dh[x["b"]] < math.inf]
                if len(m) > 1:
                    stat["choices"] = stat.get("choices", 0) + 1
                    if any(cl[x["id"]] + dl[x["b"]] > dh[a] + 1e-9 for x in m):
                        stat["strict"] = stat.get("strict", 0) + 1
            if cl[l] + dl[b] > dh[a] + 1e-9:
                return [("dearer", "adaptive vehicle %d at node %d in interval %d takes link %d: at least %.6f to node %d "
                         "by the costs of interval %d, another way costs at most %.6f"
                         % (vid, a, t, l, cl[l] + dl[b], d, u, dh[a]))]
    return []


# -------------------------------------------------- path travel times and costs
def step_up(x):
    """whole intervals a travel time of x intervals takes (possible values)"""
    out = set()
    for y in (x * (1 - 1.1e-4), x, x * (1 + 1.1e-4)):
        out.add(max(1, int(math.ceil(y - 1e-12))))
    n = max(1, int(round(x)))
    if abs(x - n) <= 0.9e-4 * max(x, n):
        return {n}
    return out


def link_ranges(R, lid, cls):
    """[(low, high)] travel time in intervals for an arrival at each interval"""
    import oracles as O
    fi, fo = R.tr.flows(lid, cls)
    I = np.concatenate([[0], np.cumsum(fi)])
    Oc = np.concatenate([[0], np.cumsum(fo)])
    out = []
    ff = O.fftt_loading(R, R.links[lid], cls)
    for x in range(R.tr.T):
        c = [O.ref_tt(I, Oc, x + 1, f) for f in ff]
        out.append((min(a for a, _ in c), max(b for _, b in c)))
    return out


def walk(R, links, start, rng, vot, toll):
    """{arrival interval: (lowest, highest cost)} of a path from `start`"""
    T = R.tr.T
    cur = {start: (0.0, 0.0)}
    for l in links:
        nxt = {}
        for t, (a, b) in cur.items():
            lo, hi = rng[l][min(t, T - 1)]
            x, y = a + vot * lo + toll[l], b + vot * hi + toll[l]
            for k in range(min(step_up(lo)), max(step_up(hi)) + 1):
                p = nxt.get(t + k)
                nxt[t + k] = (x, y) if p is None else (min(p[0], x), max(p[1], y))
        cur = nxt
    return cur


def path_costs(R, plan, stat):
    s, d, T = R.s, R.d, R.tr.T
    v = []
    ut = float(s["ut"])
    vot = (20.0 if s.get("vot") is None else float(s["vot"])) / 3600.0 * ut
    by = {(l["a"], l["b"]): l["id"] for l in s["links"]}
    paths = [[by[a, b] for a, b in zip(p[0], p[0][1:])] for p in s["paths"]]
    starts = list(dict.fromkeys(min(T - 1, int(x * T)) for x in plan["starts"]))
    st = np.array(starts, np.int32)
    for again in range(plan["again"]):
        d.build_link_cost_map(bool(again % 2) != plan["cong"])
    for cls in R.classes:
        nm = {None: "", 0: "_car", 1: "_truck"}[cls]
        rng = {l["id"]: link_ranges(R, l["id"], cls) for l in s["links"]}
        toll = {l["id"]: toll_at(R, l["id"], -1, cls) for l in s["links"]}
        reg = getattr(d, "get_registered_path_tt" + nm)(st)
        if reg.shape != (len(plan["paths"]), len(starts)):
            v.append(("pathshape", "registered path travel times%s have shape %s" % (nm, reg.shape)))
            return v
        todo = [paths[i] for i in plan["paths"]] + [p[a:b] for i, a, b in plan["parts"]
                                                    for p in [paths[i % len(paths)]] if p[a:b]]
        for k, p in enumerate(todo):
            one = getattr(d, "get_path_tt" + nm)(np.array(p, np.int32), st)
            for j, x in enumerate(starts):
                ok = walk(R, p, x, rng, vot, toll)
                stat["walks"] = stat.get("walks", 0) + 1
                stat["exact"] = stat.get("exact", 0) + (len(ok) == 1)
                n = one[0, j] / ut
                a = int(round(n)) + x
                if abs(n - round(n)) > 1e-6 or a not in ok:
                    v.append(("pathtt", "path %s%s from %d takes %r s; link by link it takes %s s"
                              % (p, nm, x, float(one[0, j]), sorted((q - x) * ut for q in ok))))
                    return v
                lo, hi = ok[a]
                if not (lo - 1e-5 * (1 + lo) <= one[1, j] <= hi + 1e-5 * (1 + hi)):
                    v.append(("pathcost", "path %s%s from %d costs %r; link by link it costs %s"
                              % (p, nm, x, float(one[1, j]), (lo, hi))))
                    return v
                if k < len(plan["paths"]) and abs(reg[k, j] - one[0, j]) > 1e-6:
                    v.append(("pathreg", "path %s%s from %d: %r s as registered path %d, %r s by its links"
                              % (p, nm, x, float(reg[k, j]), k, float(one[0, j]))))
                    return v
        for f, a in (("get_path_tt" + nm, [np.array(todo[0], np.int32)]), ("get_registered_path_tt" + nm, [])):
            try:
                getattr(d, f)(*(a + [np.array([T], np.int32)]))
            except Exception:
                pass
            else:
                v.append(("pathlate", "%s answers for a departure at %d, after the last interval %d" % (f, T, T - 1)))
    if R.mc and not v:
        v += cheapest(R, plan, stat, by)
    return v


def cheapest(R, plan, stat, by):
    s, d, T = R.s, R.d, R.tr.T
    v = []
    H = min(s["frq"] * s["maxi"], T)
    ut = float(s["ut"])
    # the costs and times the instance reports for single links
    al = np.arange(H, dtype=np.int32)
    cost, step = {}, {}
    for l in s["links"]:
        q = d.get_path_tt_car(np.array([l["id"]], np.int32), al)
        step[l["id"]] = [int(round(x / ut)) for x in q[0]]
        cost[l["id"]] = q[1].tolist()
    d.update_tdsp_tree()
    memo = {}
    for i, x in plan["best"]:
        p = s["paths"][i % len(s["paths"])][0]
        o, dn = p[0], p[-1]
        if H < s["frq"]:
            continue
        t0 = min(H - s["frq"], int(x * (H - s["frq"] + 1)))
        if dn not in memo:
            dist = bellman(R, dn, {l: c[H - 1] for l, c in cost.items()})
            rows = {H - 1: dist}
            for t in range(H - 2, -1, -1):
                w = {n: math.inf for n in dist}
                w[dn] = 0.0
                for l in s["links"]:
                    L = l["id"]
                    y = cost[L][t] + rows[min(t + step[L][t], H - 1)][l["b"]]
                    if l["a"] != dn and y < w[l["a"]]:
                        w[l["a"]] = y
                rows[t] = w
            memo[dn] = rows
        best = memo[dn][t0][o]
        M = d.get_lowest_cost_path(t0, o, dn)
        stat["cheapest"] = stat.get("cheapest", 0) + 1
        nodes = M[2].tolist()
        links = M[3].tolist()[:-1]
        if nodes[0] != o or nodes[-1] != dn or links != [by.get((a, b)) for a, b in zip(nodes, nodes[1:])]:
            v.append(("bestpath", "lowest-cost path from %d to %d at %d: nodes %s, links %s" % (o, dn, t0, nodes, links)))
            return v
        t, c = t0, 0.0
        for l in links:
            c += cost[l][t]
            t = min(t + step[l][t], H - 1)
        if not s["cyclic"] and c > best + 1e-6 * (1 + best):
            v.append(("notbest", "lowest-cost path from %d to %d at %d is %s with cost %r; the lowest cost is %r"
                      % (o, dn, t0, nodes, c, best)))
            return v
        if int(M[1, 0]) not in (int(best * (1 - 1e-6)), int(best), int(best * (1 + 1e-6))):
            v.append(("bestcost", "lowest-cost path from %d to %d at %d: cost %d reported, the lowest cost is %r"
                      % (o, dn, t0, M[1, 0], best)))
        have = any(q[0] == nodes for q in s["paths"])
        if bool(M[0, 0]) != have:
            v.append(("bestknown", "lowest-cost path %s: reported %s the path table, it is%s"
                      % (nodes, "in" if M[0, 0] else "not in", "" if have else " not")))
    return v


# ------------------------------------------------- link and junction models
def raw_attrs(R, lid):
    """[(from interval, attributes in metres and seconds as read)] of a link."""
    s, mc = R.s, R.mc
    out = []
    rows = [(-1, R.links[lid])]
    for q in (s["td"] or []):
        if q[1] == lid:
            rows.append((q[0], dict(R.links[lid], len=q[3], ffs=q[4], cap=q[5], rhoj=q[6], lanes=q[7], ffs_t=q[8],
                                    cap_t=q[9], rhoj_t=q[10])))
    rows.sort(key=lambda x: x[0])
    for t, l in rows:
        a = {"type": l["type"], "lanes": l["lanes"], "len": l["len"] * 1600.0, "conv": l.get("conv", 1)}
        for c, x in (("c", ""), ("t", "_t"))[:2 if mc else 1]:
            ffs, cap, rj = l["ffs" + x] * 1600.0 / 3600.0, l["cap" + x] / 3600.0, l["rhoj" + x] / 1600.0
            if l["type"] == "CTM":
                rj = min(rj, (400.0 if mc else 300.0) / 1600.0)
                cap = min(cap, 3500.0 / 3600.0)
            a[c] = (ffs, cap, rj)
        out.append((t, a))
    return out


def link_models(R, st=None):
    """Runs the reference model of every link along the observed entries and
    departures.  Returns (violations, {link: [supply before interval t]}); a
    supply of None means the model could not decide a rounding before."""
    import model as M
    tr, s = R.tr, R.s
    T = tr.T
    ut, sc = float(s["ut"]), float(s["scalar"])
    lev = [R.W.L.sim_rand_level(s["sim"]["salt"], t) for t in range(T)]
    v, sup = [], {}
    for k, lid in enumerate(tr.links):
        hist = raw_attrs(R, lid)
        chg = {max(0, t): a for t, a in hist[1:]}
        m = M.make(hist[0][1], ut, sc, R.mc)
        fl = [tr.flows(lid, c) for c in ((0, 1) if R.mc else (None,))]
        S = []
        sup[lid] = S
        try:
            for t in range(T):
                if t in chg:
                    m.change(chg[t])
                S.append(m.supply())
                m.step([int(f[0][t]) for f in fl], [int(f[1][t]) for f in fl], lev[t])
                got = (int(tr.sizes[t, k, 0]), int(tr.sizes[t, k, 1]))
                if m.exit() != got:
                    v.append(("model", "link %d (%s) after interval %d: %d vehicles at its exit and %d at its entrance, "
                              "its traffic model gives %d and %d" % (lid, R.links[lid]["type"], t, got[0], got[1],
                                                                     m.exit()[0], m.exit()[1])))
                    break
                if st is not None:
                    st["link_intervals"] = st.get("link_intervals", 0) + 1
                    if sum(got):
                        st["link_intervals_busy"] = st.get("link_intervals_busy", 0) + 1
        except M.Ambiguous:
            if st is not None:
                st["links_given_up"] = st.get("links_given_up", 0) + 1
        S += [None] * (T - len(S))
    return v[:4], sup


def junctions(R, sup, st):
    """Vehicles passing each turn against demand, supply and their shares."""
    import model as M
    tr, s = R.tr, R.s
    T, mc, sc = tr.T, R.mc, float(s["scalar"])
    lev = [R.W.L.sim_rand_level(s["sim"]["salt"], t) for t in range(T)]
    ex = tr.exits()
    inn, out = {}, {}
    for l in s["links"]:
        out.setdefault(l["a"], []).append(l["id"])
        inn.setdefault(l["b"], []).append(l["id"])
    # next link of a fixed-route vehicle on a link; moves by (interval, turn)
    nxt, moved, birth = {}, {}, {}
    for q in tr.veh.values():
        if q["path"] < 0:
            return [("path", "vehicle %d has no path although no vehicle is adaptive" % q["id"])]
        p = tr.paths[q["path"]][1]
        for a, b in zip(p, p[1:]):
            nxt[(q["id"], a)] = b
        tp = q["trip"]
        if tp:
            moved.setdefault((tp[0][0], None, tp[0][1]), []).append(q["id"])
        birth.setdefault((q["o"], p[0]), []).append((q["birth"], tp[0][0] if tp else T + 1))
        for (_, a), (t, b) in zip(tp, tp[1:]):
            moved.setdefault((t, a, b), []).append(q["id"])
        if q["death"] is not None:
            moved.setdefault((q["death"], tp[-1][1], None), []).append(q["id"])
    v = []

    def bad(t, n, i, j, got, want, why):
        v.append(("junction", "node %d, interval %d: %d vehicles pass from %s to %s, %s (%s)"
                  % (n, t, got, "link %d" % i if i is not None else "the origin", "link %d" % j if j is not None
                     else "the destination", want, why)))
    for node in s["nodes"]:
        n, typ, conv = node[0], node[1], float(node[2])
        if typ == "DMOND":
            for j in out.get(n, []):
                bs = birth.get((n, j), [])
                for t in range(T):
                    cnt = sum(1 for b, g in bs if b <= t <= g)
                    S = sup[j][t]
                    if S is None:
                        break
                    want = cnt
                    try:
                        if S * sc < cnt:
                            want = M.rnd(S * sc, lev[t])
                    except M.Ambiguous:
                        continue
                    st["turns"] = st.get("turns", 0) + (cnt > 0)
                    got = len(moved.get((t, None, j), []))
                    if got != want:
                        bad(t, n, None, j, got, "%d wait and the link takes %g" % (cnt, S * sc), "%d expected" % want)
                        break
        elif typ == "DMDND":
            for i in inn.get(n, []):
                for t in range(1, T):
                    want = len(ex[t - 1][i])
                    got = len(moved.get((t, i, None), []))
                    if got != want:
                        bad(t, n, i, None, got, "%d had arrived" % want, "all expected")
                        break
        else:
            for t in range(1, T):
                I, J = inn.get(n, []), out.get(n, [])
                dem = {}
                for i in I:
                    for q in ex[t - 1][i]:
                        j = nxt.get((q, i))
                        if j is not None:
                            dem.setdefault((i, j), []).append(q)
                for j in J:
                    S = sup[j][t]
                    if S is None:
                        continue
                    eq = {i: sum(conv if mc and tr.veh[q]["cls"] == 1 else 1.0 for q in dem.get((i, j), [])) / sc for i in I}
                    tot = sum(eq[i] for i in I)
                    got = {i: moved.get((t, i, j), []) for i in I}
                    if tot == 0:
                        for i in I:
                            if got[i]:
                                bad(t, n, i, j, len(got[i]), "none was there", "0 expected")
                        continue
                    st["turns"] = st.get("turns", 0) + 1
                    flow = {i: min(eq[i], M.div(eq[i], tot) * S) * sc for i in I}
                    if tot > S:
                        st["turns_tight"] = st.get("turns_tight", 0) + 1
                    if mc:
                        for i in I:
                            es = [conv if tr.veh[q]["cls"] == 1 else 1.0 for q in got[i]]
                            if sum(es) < flow[i] - 0.0011 or (es and sum(es) - max(es) > flow[i] + 1e-6):
                                bad(t, n, i, j, len(es), "%g car equivalents of demand %g, supply %g allow %g"
                                    % (sum(es), eq[i] * sc, S * sc, flow[i]), "expected until that is used up")
                                return v
                        continue
                    try:
                        want = {i: M.rnd(flow[i], lev[t]) for i in I}
                    except M.Ambiguous:
                        continue
                    w = sum(want.values())
                    lim = S * sc
                    if abs(lim - round(lim)) < 1e-9 and lim != round(lim):
                        continue
                    if w <= lim:
                        for i in I:
                            if len(got[i]) != want[i]:
                                bad(t, n, i, j, len(got[i]), "demand %g, all demand %g, supply %g"
                                    % (eq[i] * sc, tot * sc, lim), "%d expected" % want[i])
                                return v
                    else:
                        st["turns_cut"] = st.get("turns_cut", 0) + 1
                        g = sum(len(got[i]) for i in I)
                        if g != int(lim) or any(len(got[i]) > want[i] for i in I):
                            i = I[0]
                            bad(t, n, i, j, g, "all turns together, supply %g, shares %s" % (lim, sorted(want.values())),
                                "%d in all expected" % int(lim))
                            return v
        if v:
            break
    return v
