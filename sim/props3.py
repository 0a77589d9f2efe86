"""Input and output faults, allocation failures."""
import copy
import gc
import os
import random

import numpy as np

import gen as G
import oracles as O
import queries as Q
from props import Base, prop, shrink_scenario
from world import FAULT, FAULT_NAME


def required(s):
    """Files the loading cannot do without -> number of data rows needed."""
    f = {"config.conf": None, "Snap_graph": len(s["links"]), "MNM_input_node": len(s["nodes"]),
         "MNM_input_link": len(s["links"]), "MNM_input_od": len(s["orig"]) + len(s["dest"]),
         "MNM_input_demand": len(s["demand"])}
    if s["paths"]:
        f["path_table"] = len(s["paths"])
        f["path_table_buffer"] = len(s["paths"])
    return f


def reachable(s):
    """Does every origin reach every destination?"""
    adj = {}
    for l in s["links"]:
        adj.setdefault(l["a"], []).append(l["b"])
    for _, o in s["orig"]:
        seen, st = {o}, [o]
        while st:
            for y in adj.get(st.pop(), []):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        if any(d not in seen for _, d in s["dest"]):
            return False
    return True


def island(s, r):
    """A further destination that no origin reaches."""
    n = max(x[0] for x in s["nodes"]) + 1
    l = copy.deepcopy(next(x for x in s["links"] if x["type"] == "PQ"))
    l["id"], l["a"], l["b"] = max(x["id"] for x in s["links"]) + 1, n, n + 1
    at = r.randrange(len(s["nodes"]) + 1)
    s["nodes"][at:at] = [[n, "FWJ", s["nodes"][0][2]], [n + 1, "DMDND", s["nodes"][0][2]]]
    s["links"].insert(r.randrange(len(s["links"]) + 1), l)
    s["dest"].insert(r.randrange(len(s["dest"]) + 1), [max(x[0] for x in s["dest"] + s["orig"]) + 1, n + 1])


def rows(text):
    return [x for x in text.split("\n") if x.strip() and not x.strip().startswith("#")]


@prop
class C11(Base):
    id = "C11"
    budget = {"quick": 8000, "thorough": 60000}
    knobs = dict(budget=60, labels=0.4, tdad=0.4, td=0.3, emis=0.4, no_wide=("crowd", "long"))
    cpu = 20

    def plan(self, seed, tier):
        r = random.Random("C11/%d" % seed)
        s = G.gen("C11/%d" % seed, self.kinds[seed % 2], **self.knobs)
        if r.random() < 0.12 and any(x["type"] == "PQ" for x in s["links"]):
            island(s, r)
        f = G.render(s)
        req = required(s)
        faults = []
        for _ in range(r.choice([1, 1, 1, 2])):
            name = r.choice(sorted(f) if r.random() < 0.35 else sorted(req))
            kind = r.choice(["MISSING", "EACCES", "EMFILE", "EIO_READ", "EIO_READ", "TRUNC", "TRUNC", "TRUNC", "TRUNC",
                             "SHORT", "EINTR"])
            n = len(f[name])
            arg = 0
            if kind in ("EIO_READ", "TRUNC"):
                cuts = [i + 1 for i, c in enumerate(f[name]) if c == "\n" and i + 1 < n]
                arg = r.choice(cuts) if cuts and r.random() < 0.4 else r.randrange(0, max(1, n))
            elif kind == "SHORT":
                arg = r.choice([1, 2, 7, 64])
            elif kind == "EINTR":
                arg = r.choice([2, 3])
            if name in [x["file"] for x in faults]:
                continue
            faults.append({"file": name, "kind": kind, "arg": arg})
        return {"s": s, "faults": faults}

    def must_raise(self, s, files, flt):
        """Is the loading certainly impossible under this fault?"""
        req = required(s)
        name, kind, arg = flt["file"], flt["kind"], flt["arg"]
        if name not in req:
            # optional tables: absence is legal, a read error in the middle is not
            return kind == "EIO_READ" and len(rows(files[name][:arg])) < len(rows(files[name]))
        if kind in ("MISSING", "EACCES", "EMFILE"):
            return True
        if kind == "EIO_READ":
            if name == "config.conf":
                return arg < len(files[name])
            return len(rows(files[name][:arg])) < len(rows(files[name]))
        if kind == "TRUNC" and name != "config.conf":
            return len(rows(files[name][:arg])) < len(rows(files[name]))
        return False

    def execute(self, W, plan, root):
        s = plan["s"]
        v = []
        files = G.render(s)
        rt = os.path.join(root, "net")
        os.mkdir(rt)
        G.write(s, rt)
        W.begin(s["sim"], cap=20000)
        fi = [W.L.sim_fault(rt.encode(), ("/" + f["file"]).encode(), FAULT[f["kind"]], f["arg"]) for f in plan["faults"]]
        must = [f for f in plan["faults"] if self.must_raise(s, files, f)]
        harmless = all(f["kind"] in ("SHORT", "EINTR") for f in plan["faults"])
        tr = None
        err = None
        d = None
        n = {}
        try:
            d = W.load(s, rt)
            tr = W.traces()[-1] if W.O.sim_obs_count() else None
        except Exception as e:
            err = e
        for f, i in zip(plan["faults"], fi):
            k = W.L.sim_fault_fired(i)
            if k:
                n[f["kind"]] = n.get(f["kind"], 0) + 1
            W.L.sim_fault_off(i)
        if must and err is None:
            v.append(("silent", "the network was loaded although %s" % "; ".join(
                "%s: %s at byte %d" % (f["file"], f["kind"], f["arg"]) for f in must)))
        if harmless and err is not None:
            v.append(("exception", "interrupted or short reads must not matter, but the run raised %s: %s"
                      % (type(err).__name__, str(err)[:160])))
        if err is not None and not isinstance(err, Exception):
            v.append(("exception", repr(err)))
        step_cap = err is not None and "SIM_STEP_CAP" in str(err)
        if step_cap:
            v.append(("hang", "the loading did not end"))
        del d
        gc.collect()
        # recovery: without the fault the same process loads the network as if nothing had happened
        hist = None
        if not v:
            try:
                d2 = W.load(s, rt)
                tr2 = W.traces()[-1]
                R = O.Run(s, d2, tr2)
                v += O.conservation(R) + O.demand(R)
                ok = reachable(s)
                if d2.check_input_files() != ok:
                    v.append(("inputcheck", "check_input_files says %s for a network %s" % (
                        not ok, "without fault" if ok else "with a destination out of reach of an origin")))
                R.d = None
                del R, d2
                gc.collect()
                if harmless and tr is not None:
                    hist = Q.same_history(tr2, tr)
                    if hist:
                        v.append(("history", "short or interrupted reads changed the loading: " + hist))
                tr = tr2
            except Exception as e:
                v.append(("recovery", "after the fault was gone the same network could not be loaded: %s: %s"
                          % (type(e).__name__, str(e)[:160])))
        bad = W.end()
        if bad:
            v.append(("heap", "heap damage: " + bad))
        out = self.result(W, s, tr, v, f=n)
        out["tags"] += ["outcome:" + ("loaded" if err is None else type(err).__name__)]
        out["tags"] += ["file:" + f["file"] for f in plan["faults"]]
        out["il"] += "/" + repr(plan["faults"]) + repr(err)
        return out

    def shrink(self, plan):
        if len(plan["faults"]) > 1:
            for i in range(len(plan["faults"])):
                p = copy.deepcopy(plan)
                del p["faults"][i]
                yield p
        for i, f in enumerate(plan["faults"]):
            for a in (0, f["arg"] // 2):
                if a != f["arg"] and f["kind"] in ("EIO_READ", "TRUNC"):
                    p = copy.deepcopy(plan)
                    p["faults"][i]["arg"] = a
                    yield p
        for s in shrink_scenario(plan["s"]):
            p = copy.deepcopy(plan)
            p["s"] = s
            names = G.render(s)
            if all(f["file"] in names and f["arg"] < len(names[f["file"]]) for f in p["faults"]):
                yield p
