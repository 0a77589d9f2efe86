"""C14 queries are pure; C12 output faults and crashes."""
import copy
import gc
import os
import random

import numpy as np

import gen as G
import queries as Q
from props import Base, prop, shrink_scenario
from world import FAULT


def more(s, T, d_paths):
    """Queries that need registered paths, curve trees or a cost map."""
    mc = s["kind"] == "mcdta"
    q = {}
    if d_paths is None:
        return q
    xs = np.array(Q.grid(T, 5), np.int32)
    st = xs[:-1] if len(xs) > 1 else xs
    en = np.minimum(T, st + 1 + T // 9).astype(np.int32)
    by = {(l["a"], l["b"]): l["id"] for l in s["links"]}
    ns = s["paths"][0][0]
    links = np.array([by[a, b] for a, b in zip(ns, ns[1:])], np.int32)
    q["covered"] = lambda d: d.are_registered_links_in_registered_paths()
    for c in (("car_", "truck_") if mc else ("",)):
        def add(c=c):
            n = ("_" + c[:-1]) if c else ""
            q[c + "dar"] = lambda d: np.array(sorted(np.asarray(getattr(d, "get_%sdar_matrix" % c)(st, en), float)
                                                     .reshape(-1, 5).tolist()))
            if s["reg"] is None:
                def reg_tt(d):
                    d.build_link_cost_map(False)
                    return getattr(d, "get_registered_path_tt" + n)(xs)

                def path_tt(d):
                    d.build_link_cost_map(False)
                    return getattr(d, "get_path_tt" + n)(links, xs)
                q[c + "reg_path_tt"] = reg_tt
                q[c + "path_tt"] = path_tt
        add()
    if mc:
        q["coverage"] = lambda d: d.get_registered_links_coverage_in_registered_paths()
        if s["reg"] is None and s["frq"] * s["maxi"] >= s["frq"]:
            def best(d):
                d.build_link_cost_map(False)
                d.update_tdsp_tree()
                return d.get_lowest_cost_path(0, int(ns[0]), int(ns[-1]))
            q["best"] = best
    return q


def wrong(s, T):
    """Questions that have no answer; they must raise and leave no trace."""
    mc = s["kind"] == "mcdta"
    late, neg = np.array([T + 5]), np.array([0])
    q = {}
    if mc:
        q["late_tt"] = lambda d: d.get_car_link_tt(late.astype(float), False)
        q["late_speed"] = lambda d: d.get_truck_link_speed(late.astype(float))
        q["late_inflow"] = lambda d: d.get_link_car_inflow(late.astype(np.int32), (late + 1).astype(np.int32))
        q["empty_window"] = lambda d: d.get_link_truck_inflow(neg.astype(np.int32), neg.astype(np.int32))
    else:
        q["late_tt"] = lambda d: d.get_link_tt(late.astype(np.int32), False)
        q["late_inflow"] = lambda d: d.get_link_inflow(late.astype(np.int32), (late + 1).astype(np.int32))
        q["empty_window"] = lambda d: d.get_link_inflow(neg.astype(np.int32), neg.astype(np.int32))
    return q


@prop
class C14(Base):
    """The same question has the same answer, whenever and however often it is asked."""
    id = "C14"
    repeatable = True
    budget = {"quick": 6000, "thorough": 40000}
    knobs = dict(rec=0.2)

    def plan(self, seed, tier):
        kind = self.kinds[seed % 2]
        r = random.Random("C14/%d" % seed)
        s = G.gen("C14/%d" % seed, kind, **dict(self.knobs, budget=r.choice([40, 200, 600])))
        if r.random() < 0.6:
            s["reg"] = None
        prog = []
        for i in (0, 1):
            n = r.choice([4, 12, 30])
            prog.append({"order": r.randrange(1 << 30), "extra": n, "wrong": r.choice([0, 0, 1, 3]),
                         "other": G.gen("C14/%d/o%d" % (seed, i), r.choice(self.kinds), budget=60)
                         if r.random() < 0.3 else None, "at": r.random(), "drop": r.choice([0, 1])})
        return {"s": s, "prog": prog}

    def execute(self, W, plan, root):
        s = plan["s"]
        v, n = [], {}
        W.begin(s["sim"], cap=self.cap)
        seen, tr0 = {}, None
        try:
            for i, pg in enumerate(plan["prog"]):
                r = random.Random(pg["order"])
                rt = os.path.join(root, "r%d" % i)
                os.mkdir(rt)
                G.write(s, rt)
                pth = None
                if s["routing"] in ("Hybrid", "Biclass_Hybrid", "Fixed"):
                    pth = np.arange(len(s["paths"]), dtype=np.int32)
                d = W.load(s, rt, tree=pth is not None, paths=pth)
                tr = W.traces()[-1]
                tr0 = tr0 or tr
                T = tr.T
                q = Q.table(s, T, full=s["reg"] is None)
                if s["routing"] != "Fixed":
                    q.update(more(s, T, pth))
                bad = wrong(s, T)
                names = sorted(q)
                order = names[:]
                r.shuffle(order)
                order += [r.choice(names) for _ in range(pg["extra"])]
                for _ in range(pg["wrong"]):
                    order.insert(r.randrange(len(order) + 1), "!" + r.choice(sorted(bad)))
                cut = int(pg["at"] * len(order))
                keep = None
                for j, k in enumerate(order):
                    if j == cut and pg["other"]:
                        pr = os.path.join(root, "o%d" % i)
                        os.mkdir(pr)
                        G.write(pg["other"], pr)
                        keep = W.load(pg["other"], pr)
                        n["other_instance"] = n.get("other_instance", 0) + 1
                        if pg["drop"]:
                            keep = None
                            gc.collect()
                    if k[0] == "!":
                        n["impossible_question"] = n.get("impossible_question", 0) + 1
                        try:
                            bad[k[1:]](d)
                        except Exception:
                            pass
                        else:
                            v.append(("answered", "%s was answered" % k[1:]))
                        continue
                    a = Q.ask(q[k], d)
                    n["question"] = n.get("question", 0) + 1
                    if k not in seen:
                        seen[k] = a
                    elif not Q.same(seen[k], a):
                        v.append(("changed", "%s, asked again as question %d of program %d, differs: %s"
                                  % (k, j, i, Q.diff(seen[k], a))))
                        break
                del d, keep
                gc.collect()
                if v:
                    break
        except Exception as e:
            v.append(("exception", "the program raised %s: %s" % (type(e).__name__, str(e)[:200])))
        for k, a in seen.items():
            if isinstance(a, str) and a.startswith("EXC") and not v:
                v.append(("refused", "%s raised %s" % (k, a)))
        gc.collect()
        bad = W.end()
        if bad:
            v.append(("heap", "heap damage: " + bad))
        return self.result(W, s, tr0, v, f=n)

    def shrink(self, plan):
        for i in range(len(plan["prog"])):
            if len(plan["prog"]) > 1:
                p = copy.deepcopy(plan)
                del p["prog"][i]
                yield p
            for k, z in (("other", None), ("extra", 0), ("wrong", 0)):
                if plan["prog"][i][k]:
                    p = copy.deepcopy(plan)
                    p["prog"][i][k] = z
                    yield p
        for s in shrink_scenario(plan["s"]):
            p = copy.deepcopy(plan)
            p["s"] = s
            yield p


# =========================================================================
def record_names(s):
    rec = s["rec"]
    out = []
    suf = ["", "_car", "_truck"] if s["kind"] == "mcdta" else [""]
    for what, a, b, name in (("vol", "vl", "vr", "volume"), ("tt", "tl", "tr", "tt")):
        if rec[what]:
            out += ["MNM_output_load_interval_%s%s" % (name, x) for x in suf if rec[a]]
            out += ["MNM_output_record_interval_%s%s" % (name, x) for x in suf if rec[b]]
    return out


@prop
class C12(Base):
    """Output faults and crashes."""
    id = "C12"
    budget = {"quick": 8000, "thorough": 60000}
    knobs = dict(rec=1.0, emis=0.3)

    def plan(self, seed, tier):
        r = random.Random("C12/%d" % seed)
        s = G.gen("C12/%d" % seed, self.kinds[seed % 2], **dict(self.knobs, budget=r.choice([40, 150])))
        rec = s["rec"]
        rec["vol"] = 1
        rec["vl"] = 1
        if r.random() < 0.6:
            rec["tt"] = 1
            rec["tl"] = r.choice([0, 1])
            rec["tr"] = r.choice([0, 1])
        rec["vr"] = r.choice([0, 1])
        names = record_names(s)
        faults = []
        for _ in range(r.choice([1, 1, 2])):
            kind = r.choice(["ENOSPC", "ENOSPC", "EIO_WRITE", "CRASHW", "CRASHW", "CRASHW", "SHORTW", "EINTR", "OPENW", "EMFILE"])
            arg = {"SHORTW": r.choice([1, 3, 50]), "EINTR": r.choice([2, 3])}.get(kind, 0)
            if kind in ("ENOSPC", "EIO_WRITE", "CRASHW"):
                arg = r.choice([0, 1, 10, 100, r.randrange(1, 3000), r.randrange(1, 20000)])
            name = r.choice(names)
            if name not in [f["file"] for f in faults]:
                faults.append({"file": name, "kind": kind, "arg": arg})
        return {"s": s, "faults": faults, "stale": r.random() < 0.4, "nodir": r.random() < 0.04}

    def execute(self, W, plan, root):
        s, v, n = plan["s"], [], {}
        a, b = os.path.join(root, "a"), os.path.join(root, "b")
        for p in (a, b):
            os.mkdir(p)
            G.write(s, p)
        W.begin(s["sim"], cap=20000)
        tr = None
        names = record_names(s)

        def files(p):
            return Q.files(p)
        try:
            d = W.load(s, a)
            tr = W.traces()[-1]
            ref = files(a)
            del d
            gc.collect()
            if plan["stale"]:
                n["stale_files"] = 1
                for x in names:
                    with open(os.path.join(b, "record", x), "w") as f:
                        f.write("Interval 9 9 9\n" + "7 7.7 7.7\n" * 4000)
            if plan["nodir"]:
                for x in os.listdir(os.path.join(b, "record")):
                    os.unlink(os.path.join(b, "record", x))
                os.rmdir(os.path.join(b, "record"))
                n["no_folder"] = 1
            fl = plan["faults"]
            crash = any(f["kind"] == "CRASHW" for f in fl)
            idx = [W.L.sim_fault(b.encode(), ("/" + f["file"]).encode(), FAULT[f["kind"]], f["arg"]) for f in fl]
            err, died, tr2 = None, False, None
            if crash:
                pid = os.fork()
                if pid == 0:
                    try:
                        d = W.load(s, b)
                        del d
                        gc.collect()
                        os._exit(0)
                    except BaseException:
                        os._exit(5)
                st = os.waitpid(pid, 0)[1]
                if os.WIFSIGNALED(st):
                    v.append(("crash", "the loading was killed by signal %d" % os.WTERMSIG(st)))
                    code = -1
                else:
                    code = os.WEXITSTATUS(st)
                died = code == 77
                n["CRASHW"] = int(died)
                err = code == 5
            else:
                try:
                    d = W.load(s, b)
                    tr2 = W.traces()[-1]
                    del d
                except Exception as e:
                    err = e
                gc.collect()
            for f, i in zip(fl, idx):
                if f["kind"] != "CRASHW":
                    k = W.L.sim_fault_fired(i)
                    if k:
                        n[f["kind"]] = n.get(f["kind"], 0) + 1
                W.L.sim_fault_off(i)
            got = files(b)
            noopen = plan["nodir"] or any(f["kind"] in ("OPENW", "EMFILE") for f in fl)
            harmless = not noopen and all(f["kind"] in ("SHORTW", "EINTR") for f in fl)
            if noopen and not err and not died:
                v.append(("silent", "the run went on although a record file could not be created"))
            if harmless and err:
                v.append(("exception", "short or interrupted writes must not matter, but the run raised %r" % (err,)))
            if tr2 is not None:
                x = Q.same_history(tr, tr2)
                if x:
                    v.append(("history", "write faults changed the loading: " + x))
            if not noopen:
                hit = {f["file"]: f for f in fl}
                for x in names:
                    p = "record/" + x
                    want, have = ref.get(p), got.get(p)
                    if have is None:
                        if not (died or err):
                            v.append(("lost", "record file %s is missing" % x))
                        continue
                    f = hit.get(x)
                    if died or err or (f and f["kind"] in ("ENOSPC", "EIO_WRITE", "CRASHW")):
                        stale = plan["stale"] and have.startswith("Interval 9 9 9\n") and (died or err)
                        if not want.startswith(have) and not stale:
                            v.append(("garbled", "record file %s after %s: %d bytes that are no prefix of the undisturbed file"
                                      % (x, "a crash" if died else "write errors", len(have))))
                    elif have != want:
                        v.append(("differs", "record file %s differs from the undisturbed run's" % x))
            # restart in the same folder
            if not v:
                os.makedirs(os.path.join(b, "record"), exist_ok=True)
                d = W.load(s, b)
                x = Q.same_history(tr, W.traces()[-1])
                del d
                gc.collect()
                if x:
                    v.append(("restart", "after the fault the same folder loads differently: " + x))
                now = files(b)
                for k in ref:
                    if now.get(k) != ref[k]:
                        v.append(("restart", "after the fault, %s of a new run in the same folder differs" % k))
                        break
        except Exception as e:
            v.append(("exception", "the program raised %s: %s" % (type(e).__name__, str(e)[:200])))
        gc.collect()
        bad = W.end()
        if bad:
            v.append(("heap", "heap damage: " + bad))
        return self.result(W, s, tr, v, f=n)

    def shrink(self, plan):
        for i in range(len(plan["faults"])):
            if len(plan["faults"]) > 1:
                p = copy.deepcopy(plan)
                del p["faults"][i]
                yield p
        for k in ("stale", "nodir"):
            if plan[k]:
                p = copy.deepcopy(plan)
                p[k] = False
                yield p
        for s in shrink_scenario(plan["s"]):
            p = copy.deepcopy(plan)
            p["s"] = s
            if all(f["file"] in record_names(s) for f in p["faults"]):
                yield p
