"""Every query of the Python API whose answer is a function of the loading, in
a form that can be called in any order and compared between executions."""
import os

import numpy as np


def norm(x):
    """A comparable, JSON-free value: arrays stay arrays, strings strings."""
    if isinstance(x, str):
        return x
    if hasattr(x, "toarray"):
        return np.asarray(x.toarray(), float)
    return np.asarray(x, float)


def grid(T, n=7):
    return sorted(set(int(i * (T - 1) / float(n - 1)) for i in range(n))) if T > 1 else [0]


def table(s, T, full=False):
    """name -> function(d); full: every link is registered (queries that need
    the curves of all links)."""
    mc = s["kind"] == "mcdta"
    reg = s["reg"] if s["reg"] is not None else [l["id"] for l in s["links"]]
    xs = grid(T)
    xi = np.array(xs, np.int32)
    xd = np.array(xs, float)
    st = np.array([x for x in xs if x < T][:-1] or [0], np.int32)
    en = np.array([min(T, int(x) + 1 + T // 9) for x in st], np.int32)
    q = {}
    q["links"] = lambda d: sorted(d.links)
    q["registered_links"] = lambda d: d.registered_links
    q["interval"] = lambda d: d.get_cur_loading_interval()
    q["travel_stats"] = lambda d: d.get_travel_stats()
    q["emission"] = lambda d: d.print_emission_stats()
    if not mc:
        q["in_ccs"] = lambda d: d.get_in_ccs()
        q["out_ccs"] = lambda d: d.get_out_ccs()
        q["in_ccs_sub"] = lambda d: d.get_in_ccs(reg[::-1][:2])
        q["raw_in"] = lambda d: d.get_link_in_cc(reg[0])
        q["raw_out"] = lambda d: d.get_link_out_cc(reg[-1])
        q["inflow"] = lambda d: d.get_link_inflow(st, en)
        q["tt"] = lambda d: d.get_link_tt(xi, False)
        q["tt_inf"] = lambda d: d.get_link_tt(xi, True)
        q["tt_robust"] = lambda d: d.get_link_tt_robust(st.astype(float), en.astype(float), 4, False)
        q["tt_fd"] = lambda d: d.get_link_tt_FD(xi)
        if full and s["routing"] == "Hybrid":
            q["cost_map"] = lambda d: d.build_link_cost_map(True)
    else:
        for c in ("car", "truck"):
            def add(c=c):
                q[c + "_in_ccs"] = lambda d: getattr(d, "get_%s_in_ccs" % c)()
                q[c + "_out_ccs"] = lambda d: getattr(d, "get_%s_out_ccs" % c)()
                q[c + "_raw_in"] = lambda d: getattr(d, "get_%s_link_in_cc" % c)(reg[0])
                q[c + "_raw_out"] = lambda d: getattr(d, "get_%s_link_out_cc" % c)(reg[-1])
                q[c + "_inflow"] = lambda d: getattr(d, "get_link_%s_inflow" % c)(st, en)
                q[c + "_tt"] = lambda d: getattr(d, "get_%s_link_tt" % c)(xd, False)
                q[c + "_tt_inf"] = lambda d: getattr(d, "get_%s_link_tt" % c)(xd, True)
                q[c + "_tt_robust"] = lambda d: getattr(d, "get_%s_link_tt_robust" % c)(
                    st.astype(float), en.astype(float), 4, False)
                q[c + "_fftt"] = lambda d: getattr(d, "get_%s_link_fftt" % c)(np.array(reg, np.int32))
                q[c + "_speed"] = lambda d: getattr(d, "get_%s_link_speed" % c)(xd)
                q[c + "_out_num"] = lambda d: getattr(d, "get_%s_link_out_num" % c)(reg[0], T / 2.0)
                q[c + "_wait"] = lambda d: getattr(d, "get_waiting_time_at_intersections_" + c)()
                q[c + "_avg_tt"] = lambda d: getattr(d, "get_avg_link_on_path_tt_" + c)(np.array(reg, np.int32), xd)
            add()
        q["wait"] = lambda d: d.get_waiting_time_at_intersections()
        q["spillback"] = lambda d: d.get_link_spillback()
        q["enroute"] = lambda d: d.get_enroute_and_queue_veh_stats_agg()
        q["queues"] = lambda d: d.get_queue_veh_each_link(np.array(reg, np.int32), xi)
        if full and s["routing"] == "Biclass_Hybrid":
            q["cost_map"] = lambda d: d.build_link_cost_map(True)
    return q


def ask(f, d):
    try:
        return norm(f(d))
    except Exception as e:
        return "EXC %s: %s" % (type(e).__name__, str(e)[:120])


def floats(t):
    out = []
    for w in t.replace(",", " ").replace(":", " ").split():
        try:
            out.append(float(w))
        except ValueError:
            out.append(w)
    return out


def same(a, b, rtol=1e-9):
    if isinstance(a, str) or isinstance(b, str):
        if not (isinstance(a, str) and isinstance(b, str)):
            return False
        if a == b:
            return True
        x, y = floats(a), floats(b)
        if len(x) != len(y):
            return False
        return all((p == q) or (isinstance(p, float) and isinstance(q, float) and
                                abs(p - q) <= 1e-6 + 1e-6 * max(abs(p), abs(q))) for p, q in zip(x, y))
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    with np.errstate(invalid="ignore"):
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) |
                           (np.abs(a - b) <= 1e-9 + rtol * np.maximum(np.abs(a), np.abs(b)))))


def brief(x):
    if isinstance(x, str):
        return x[:80]
    x = np.asarray(x)
    return "%s%s" % (x.shape, x.ravel()[:4].tolist())


def diff(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return "%s / %s" % (brief(a), brief(b))
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return "shape %s / %s" % (a.shape, b.shape)
    k = np.argwhere(~((a == b) | (np.isnan(a) & np.isnan(b))))
    if not len(k):
        return "equal"
    k = tuple(k[0])
    return "%d entries, first at %s: %r / %r" % (int(np.sum(a != b)), [int(i) for i in k], float(a[k]), float(b[k]))


def files(root):
    out = {}
    for dp, dn, fn in os.walk(os.path.join(root, "record")):
        for f in sorted(fn):
            p = os.path.join(dp, f)
            out[os.path.relpath(p, root)] = open(p, "rb").read().decode("latin1")
    return out


def same_history(a, b):
    """None if two traces are the same history, else what differs first."""
    for name in ("births", "moves", "deaths"):
        x, y = getattr(a, name), getattr(b, name)
        if name == "births":
            x, y = x[:, :10], y[:, :10]
        n = min(len(x), len(y))
        bad = np.argwhere(np.any(x[:n] != y[:n], axis=1))
        if len(bad):
            i = int(bad[0])
            return "%s: event %d is %s, was %s" % (name, i, y[i].tolist(), x[i].tolist())
        if len(x) != len(y):
            return "%s: %d events, was %d" % (name, len(y), len(x))
    if a.T != b.T:
        return "length: %d intervals, was %d" % (b.T, a.T)
    if a.sizes.shape != b.sizes.shape or np.any(a.sizes != b.sizes):
        return "queue lengths differ"
    if np.any(a.counts != b.counts):
        return "vehicle counters differ"
    pa = [a.paths[i][1] if i >= 0 else None for i in a.births[:, 10]]
    pb = [b.paths[i][1] if i >= 0 else None for i in b.births[:, 10]]
    if pa != pb:
        return "route choices differ"
    return None
