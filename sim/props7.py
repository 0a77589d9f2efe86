"""C16 result files: the congestion report and the vehicle trajectories."""
import copy
import gc
import os
import random

import numpy as np

import gen as G
import oracles as O
import queries as Q
from props import Base, prop, shrink_scenario
from world import FAULT

REPORT = "driving_link_cong_raw.txt"
TRACK = "vehicle_route_cong_raw.txt"
HEAD = {"dta": "timestamp(intervals) driving_link_ID vehicle_inflow vehicle_outflow vehicle_tt(s) vehicle_fftt(s) "
               "vehicle_freeflow_speed(mph) vehicle_speed(mph)",
        "mcdta": "timestamp(intervals) driving_link_ID car_inflow car_outflow truck_inflow truck_outflow car_tt(s) truck_tt(s) "
                 "car_fftt(s) truck_fftt(s) car_freeflow_speed(mph) car_speed(mph) truck_freeflow_speed(mph) "
                 "truck_speed(mph)"}
THEAD = ("timestamp(intervals) vehicle_ID routing_type departure_interval origin_ID origin_node_ID destination_ID "
         "destination_node_ID current_link next_link position")


def near(a, b):
    return abs(a - b) <= 2e-6 + 1e-6 * abs(b)


def report(R, text, f):
    """The congestion report against the vehicles' histories."""
    s, tr = R.s, R.tr
    T, mc = tr.T, R.mc
    rows = text.split("\n")
    if rows[0] != HEAD[s["kind"]] or rows[-1] != "":
        return [("report", "the congestion report has header %r or no final newline" % rows[0][:80])]
    seen = {}
    for x in rows[1:-1]:
        w = x.split()
        try:
            k = (int(w[0]), int(w[1]))
            val = [float(y) for y in w[2:]]
        except (ValueError, IndexError):
            return [("report", "unreadable row in the congestion report: %r" % x[:80])]
        if k in seen or len(val) != (12 if mc else 6):
            return [("report", "row %r of the congestion report is repeated or incomplete" % (x[:80],))]
        seen[k] = val
    want = {(t, l) for t in range(0, T - f + 1, f) for l in R.links}
    if set(seen) != want:
        return [("report", "the congestion report covers %d (window, link) pairs, %d of the run's %d are missing, %d are not in it"
                 % (len(seen), len(want - set(seen)), len(want), len(set(seen) - want)))]
    n = min(10, f)
    cl = [0, 1] if mc else [None]
    for lid, l in R.links.items():
        for ci, cls in enumerate(cl):
            fi, fo = tr.flows(lid, cls)
            I = np.concatenate([[0], np.cumsum(fi)])
            Oc = np.concatenate([[0], np.cumsum(fo)])
            nm = "" if not mc else ("car " if cls == 0 else "truck ")
            fftt = None
            if not s["td"]:
                fftt = sorted(O.fftt_loading(R, l, cls))
            for t in range(0, T - f + 1, f):
                z = seen[t, lid]
                if mc:
                    i, o, tt, ff = z[2 * ci], z[2 * ci + 1], z[4 + ci], z[6 + ci]
                    fs, sp = z[8 + 2 * ci], z[9 + 2 * ci]
                else:
                    i, o, tt, ff, fs, sp = z
                at = "link %d, window %d-%d, %s" % (lid, t, t + f, nm)
                for what, got, C in (("inflow", i, I), ("outflow", o, Oc)):
                    x = (C[t + f] - C[t]) / s["scalar"]
                    if not near(got, x):
                        return [("report", at + "%s reported as %r, %r vehicles crossed" % (what, got, float(x)))]
                if s["td"]:
                    continue
                if not any(near(ff, x * s["ut"]) for x in fftt):
                    return [("report", at + "free-flow time %r s, the attributes give %s" % (ff, [x * s["ut"] for x in fftt]))]
                ok, alts = False, []
                for x in fftt:
                    a = b = 0.0
                    for k in range(n):
                        lo, hi = O.ref_tt(I, Oc, t + 1 + k * (f // n), x)
                        a += lo
                        b += hi
                    a, b = a / n * s["ut"], b / n * s["ut"]
                    alts.append((a, b))
                    ok = ok or a - 1e-4 <= tt <= b + 1e-4
                if not ok:
                    return [("report", at + "travel time %r s, the curves give %s" % (tt, alts))]
                L = l["len"]
                if mc and l["type"] == "CTM":
                    L = max(L, l["ffs"] * s["ut"] / 3600.0)
                for what, sec, mph in (("free-flow speed", ff, fs), ("speed", tt, sp)):
                    if abs(mph * sec / 3600.0 - L) > 1e-4 * L + sec * 1e-9:
                        return [("report", at + "%s %r mph over %r s on %r miles" % (what, mph, sec, L))]
    return []


def trajectories(R, text, plan):
    """The trajectory file against the vehicles' histories."""
    s, tr = R.s, R.tr
    f, rate = plan["freq"], plan["rate"]
    rows = text.split("\n")
    if len(text) > 40000000:
        return []
    if rows[0] != THEAD or rows[-1] != "":
        return [("track", "the trajectory file has header %r or no final newline" % rows[0][:80])]
    by, first = {}, {}
    last_t = -1
    mod = 1 + len(text) // 4000000      # very long files: every mod-th vehicle
    for x in rows[1:-1]:
        w = x.split()
        try:
            t, i = int(w[0]), int(w[1])
            row = (w[2], int(w[3]), int(w[4]), int(w[5]), int(w[6]), int(w[7]), int(w[8]), int(w[9]), float(w[10]))
        except (ValueError, IndexError):
            return [("track", "unreadable row in the trajectory file: %r" % x[:80])]
        if i % mod:
            continue
        if (t, i) in by or t < last_t:
            return [("track", "row %r of the trajectory file is repeated or out of order" % x[:80])]
        last_t = t
        by[t, i] = row
        first.setdefault(i, t)
    ex = [{l: set(q) for l, q in row.items()} for row in tr.exits()]
    ok_od = {tuple(x) for x in plan["ods"]} if plan["ods"] else None
    for i, q in tr.veh.items():
        if i % mod:
            continue
        t0 = q["birth"]
        on0 = bool(q["trip"]) and q["trip"][0][0] == t0
        may = (on0 and t0 % f == 0 and (not plan["ivs"] or t0 in plan["ivs"])
               and (ok_od is None or (R.node_o[q["o"]], R.node_d[q["d"]]) in ok_od))
        if may and rate >= 1 and (q["death"] is None or q["death"] > t0) and i not in first:
            return [("track", "vehicle %d (released at %d, on its first link) is not tracked" % (i, t0))]
        if i in first and (not may or rate <= 0):
            return [("track", "vehicle %d (released at %d) is tracked although it should not be" % (i, t0))]
        if i not in first:
            continue
        if first[i] != t0:
            return [("track", "vehicle %d, released at %d, first appears at %d" % (i, t0, first[i]))]
        end = q["death"] if q["death"] is not None else tr.T
        k, pos, plink = 0, None, None
        links = tr.paths[q["path"]][1] if q["type"] == 1 and q["path"] >= 0 else None
        for t in range(t0, end, f):
            row = by.pop((t, i), None)
            if row is None:
                return [("track", "vehicle %d is missing from the trajectory file at %d" % (i, t))]
            while k + 1 < len(q["trip"]) and q["trip"][k + 1][0] <= t:
                k += 1
            cur = q["trip"][k][1]
            static = ("habitual" if q["type"] == 1 else "adaptive", q["start"], R.node_o[q["o"]], q["o"], R.node_d[q["d"]], q["d"])
            if row[:6] != static:
                return [("track", "vehicle %d at %d described as %s, it is %s" % (i, t, row[:6], static))]
            if row[6] != cur:
                return [("track", "vehicle %d at %d is on link %d, the file says %d" % (i, t, cur, row[6]))]
            wait = t > 0 and i in ex[t - 1].get(cur, ()) and i in ex[t].get(cur, ())
            if not wait:
                nx = {cur}
            elif links is not None and s["routing"] != "Adaptive":
                j = k + 1
                nx = {links[j]} if j < len(links) else {-1}
            else:
                nx = set(R.out.get(R.links[cur]["b"], [])) or {-1}
            if row[7] not in nx:
                return [("track", "vehicle %d at %d on link %d %s: next link %d, expected one of %s"
                         % (i, t, cur, "at its exit" if wait else "under way", row[7], sorted(nx)))]
            if not 0 <= row[8] <= 1 or (plink == cur and row[8] < pos - 1e-6 and R.links[cur]["type"] == "CTM"
                                        and t - f > q["trip"][k][0]):
                return [("track", "vehicle %d at %d: position %r after %r on link %d" % (i, t, row[8], pos, cur))]
            pos, plink = row[8], cur
    if by:
        return [("track", "the trajectory file has %d rows for vehicles not under way, e.g. %s" % (len(by), sorted(by)[0]))]
    return []


@prop
class C16(Base):
    """Congestion report and trajectories."""
    id = "C16"
    observe = 3
    budget = {"quick": 8000, "thorough": 60000}
    knobs = dict(rec=0.1)

    def plan(self, seed, tier):
        r = random.Random("C16/%d" % seed)
        kind = "dta" if seed % 4 == 0 else "mcdta"
        s = G.gen("C16/%d" % seed, kind, **dict(self.knobs, budget=r.choice([40, 150, 400])))
        p = {"s": s, "cong": r.choice([1, 2, 3, 5, 7, 10, 20, 30, 0]), "track": kind == "mcdta" and r.random() < 0.75,
             "rate": r.choice([1.0, 1.0, 0.5, 0.0]), "freq": r.choice([1, 1, 1, 2, 3, 5, 12, 0]), "ods": [], "ivs": [],
             "fault": None, "stale": r.random() < 0.3}
        T = s["frq"] * s["maxi"]
        if p["track"]:
            if r.random() < 0.4:
                p["ods"] = [[r.choice(s["orig"])[0], r.choice(s["dest"])[0]] for _ in range(r.choice([1, 2]))]
                if r.random() < 0.15:
                    p["ods"] = [[999999, 888888]]
            if r.random() < 0.3:
                m = max(1, int(round(60.0 / s["ut"])))
                p["ivs"] = sorted({r.randrange(0, max(1, T // m)) * m for _ in range(r.choice([1, 2, 4]))})
        if r.random() < 0.35:
            k = r.choice(["ENOSPC", "EIO_WRITE", "SHORTW", "EINTR", "OPENW", "EMFILE"])
            arg = {"SHORTW": r.choice([1, 3, 50]), "EINTR": r.choice([2, 3])}.get(k, 0)
            if k in ("ENOSPC", "EIO_WRITE"):
                arg = r.choice([0, 1, 100, r.randrange(1, 3000), r.randrange(1, 30000)])
            p["fault"] = {"file": r.choice([REPORT, TRACK] if p["track"] else [REPORT]), "kind": k, "arg": arg}
        return p

    def load(self, W, plan, root, out, track):
        s = plan["s"]
        W.mp.set_random_state(s["rng"])
        d = W.make(s, root)
        d.register_links(s["reg"]) if s["reg"] is not None else d.register_links()
        d.install_cc()
        if track:
            d.run_whole_vehicle_tracking(False, out, float(plan["rate"]), int(plan["freq"]))
        else:
            d.run_whole(False)
        return d

    def execute(self, W, plan, root):
        s, v, n = plan["s"], [], {}
        net, out, out2 = (os.path.join(root, x) for x in ("net", "out", "out2"))
        for x in (net, out, out2):
            os.mkdir(x)
        G.write(s, net)
        if plan["ods"]:
            with open(os.path.join(net, "MNM_input_od_tracking"), "w") as f:
                f.write("# origin_ID destination_ID\n" + "".join("%d %d\n" % tuple(x) for x in plan["ods"]))
        if plan["ivs"]:
            with open(os.path.join(net, "MNM_input_interval_tracking"), "w") as f:
                f.write("# interval\n" + "".join("%d\n" % x for x in plan["ivs"]))
        if plan["stale"]:
            for x in (REPORT, TRACK):
                with open(os.path.join(out, x), "w") as f:
                    f.write("old\n" * 5000)
            n["stale_files"] = 1
        W.begin(s["sim"], observe=self.observe, cap=self.cap)
        tr, fl = None, plan["fault"]

        def text(p):
            try:
                with open(p) as f:
                    return f.read()
            except OSError:
                return None
        try:
            # undisturbed
            d = self.load(W, plan, net, out, plan["track"])
            tr = W.traces()[-1]
            R = O.Run(s, d, tr)
            d.print_simulation_results(out, plan["cong"])
            a, b = text(os.path.join(out, REPORT)), text(os.path.join(out, TRACK))
            old = "old\n" * 5000 if plan["stale"] else None
            if plan["cong"]:
                v += report(R, a or "", plan["cong"])
                n["report"] = 1
            elif a != old:
                v.append(("report", "a congestion report was written although none was asked for"))
            if plan["track"] and plan["freq"]:
                v += trajectories(R, b or "", plan)
                n["trajectories"] = 1
            elif b != old:
                v.append(("track", "a trajectory file was written although none was asked for"))
            if plan["track"]:
                v += [("track/" + k, m) for k, m in O.conservation(R)]
            if plan["track"] and (plan["freq"] == 0 or plan["ods"] == [[999999, 888888]]) and not v:
                # nothing was drawn for the sampling: the same loading as without tracking
                d2 = self.load(W, plan, net, out, False)
                x = Q.same_history(tr, W.traces()[-1])
                if x:
                    v.append(("disturbed", "tracking changed the loading: " + x))
                del d2
            if fl and not v:
                i = W.L.sim_fault(out2.encode(), ("/" + fl["file"]).encode(), FAULT[fl["kind"]], fl["arg"])
                err = None
                try:
                    d2 = d
                    if fl["file"] == TRACK:
                        d2 = self.load(W, plan, net, out2, True)
                    d2.print_simulation_results(out2, plan["cong"])
                except Exception as e:
                    err = e
                if W.L.sim_fault_fired(i):
                    n[fl["kind"]] = 1
                W.L.sim_fault_off(i)
                d2 = None
                gc.collect()
                want = a if fl["file"] == REPORT else b
                got = text(os.path.join(out2, fl["file"]))
                asked = plan["cong"] if fl["file"] == REPORT else plan["freq"]
                if asked:
                    if fl["kind"] in ("OPENW", "EMFILE"):
                        if err is None:
                            v.append(("silent", "%s could not be created, and nothing was raised" % fl["file"]))
                    elif fl["kind"] in ("SHORTW", "EINTR"):
                        if err is not None or got != want:
                            v.append(("differs", "short or interrupted writes changed %s (%r)" % (fl["file"], err)))
                    elif fl["file"] == TRACK:
                        # reopened every interval: rows may be lost, the loading must not change
                        x = Q.same_history(tr, W.traces()[-1])
                        if err is None and x:
                            v.append(("disturbed", "write errors of the trajectory file changed the loading: " + x))
                    elif err is None and (got is None or not want.startswith(got)):
                        v.append(("garbled", "%s after %s is no prefix of the undisturbed file" % (fl["file"], fl["kind"])))
            R.d = None
            del R, d
        except Exception as e:
            v.append(("exception", "the program raised %s: %s" % (type(e).__name__, str(e)[:200])))
        gc.collect()
        bad = W.end()
        if bad:
            v.append(("heap", "heap damage: " + bad))
        return self.result(W, s, tr, v, f=n)

    def shrink(self, plan):
        for k, z in (("fault", None), ("stale", False), ("track", False), ("ods", []), ("ivs", []), ("cong", 0)):
            if plan[k] and not (k == "track" and plan["fault"] and plan["fault"]["file"] == TRACK):
                p = copy.deepcopy(plan)
                p[k] = z
                yield p
        for s in shrink_scenario(plan["s"]):
            p = copy.deepcopy(plan)
            p["s"] = s
            yield p
