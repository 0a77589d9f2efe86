"""C23 path sets: coverage, generation, saving and loading again."""
import copy
import gc
import os
import random

import numpy as np

import gen as G
import oracles as O
import oracles2 as O2
import queries as Q
from props import Base, prop, shrink_scenario
from world import FAULT


def read_table(folder):
    """[(nodes, shares)] in file order, or None."""
    out = []
    try:
        with open(os.path.join(folder, "path_table")) as f:
            a = f.read().split("\n")
        with open(os.path.join(folder, "path_table_buffer")) as f:
            b = f.read().split("\n")
    except OSError:
        return None
    if a[-1] != "" or b[-1] != "":
        return None
    a, b = ([x for x in q if x.strip() and x.strip()[0] != "#"] + [""] for q in (a, b))
    if len(a) != len(b):
        return None
    for x, y in zip(a[:-1], b[:-1]):
        out.append((tuple(int(q) for q in x.split()), tuple(float(q) for q in y.split())))
    return out


def reach(edges, src):
    seen, st = {src}, [src]
    while st:
        u = st.pop()
        for v in edges.get(u, ()):
            if v not in seen:
                seen.add(v)
                st.append(v)
    return seen


@prop
class C23(Base):
    """Path sets."""
    id = "C23"
    budget = {"quick": 12000, "thorough": 60000}
    knobs = dict(budget=60, td=0.0, toll=0.4)
    repeatable = True

    def plan(self, seed, tier):
        r = random.Random("C23/%d" % seed)
        kind = "dta" if seed % 4 == 0 else "mcdta"
        s = G.gen("C23/%d" % seed, kind, routing=["Hybrid"] if kind == "dta" else ["Biclass_Hybrid"], **self.knobs)
        s["reg"] = sorted(r.sample([l["id"] for l in s["links"]], r.randrange(1, len(s["links"]) + 1)))
        if r.random() < 0.5:
            r.shuffle(s["reg"])
        n = len(s["paths"])
        reg = sorted(r.sample(range(n), r.randrange(1, n + 1)))
        ops = ["cover"]
        if kind == "mcdta":
            ops = [r.choice(["cover", "cover", "links", "shortest", "shortest"]) for _ in range(r.choice([1, 1, 2]))]
        ids = [l["id"] for l in s["links"]]
        p = {"s": s, "paths": reg, "ops": [], "fault": None}
        for o in ops:
            q = {"op": o}
            if o == "links":
                q["links"] = [r.choice(ids) for _ in range(r.randrange(1, len(ids) + 2))]
                q["iter"] = r.choice([1, 2, 5])
            if o == "shortest":
                q.update(iter=r.choice([0, 1, 2, 4]), vot=r.choice([0.001, 0.01, 1.0]), mid=r.choice([1.0, 1.2, 3]),
                         heavy=r.choice([1.0, 2, 10]), minlen=r.choice([0, 0, 0, 500.0, 3000.0]))
            p["ops"].append(q)
        if r.random() < 0.25:
            p["fault"] = {"file": r.choice(["path_table", "path_table_buffer"]), "kind": r.choice(["OPENW", "EMFILE", "SHORTW", "EINTR"]),
                          "arg": r.choice([2, 3, 50])}
        return p

    # -- oracles
    def legal(self, s, nodes, by, pairs):
        if len(nodes) < 2 or (nodes[0], nodes[-1]) not in pairs:
            return "it does not join an origin to a destination with demand"
        for a, b in zip(nodes, nodes[1:]):
            if (a, b) not in by:
                return "there is no link from %d to %d" % (a, b)
        return None

    def execute(self, W, plan, root):
        s, v, n = plan["s"], [], {}
        mc = s["kind"] == "mcdta"
        net, out = os.path.join(root, "net"), os.path.join(root, "out")
        os.mkdir(net)
        os.mkdir(out)
        G.write(s, net)
        W.begin(s["sim"], cap=self.cap)
        tr = None
        by = {(l["a"], l["b"]): l["id"] for l in s["links"]}
        links = {l["id"]: l for l in s["links"]}
        on, dn = dict(map(tuple, s["orig"])), dict(map(tuple, s["dest"]))
        pairs = {(on[d[0]], dn[d[1]]) for d in s["demand"]}
        fwd, bwd = {}, {}
        for l in s["links"]:
            fwd.setdefault(l["a"], []).append(l["b"])
            bwd.setdefault(l["b"], []).append(l["a"])
        have = [tuple(p[0]) for p in s["paths"]]
        lset = [{by[a, b] for a, b in zip(p, p[1:])} for p in have]
        fl = plan["fault"]
        extra = {}
        try:
            W.mp.set_random_state(s["rng"])
            d = W.make(s, net)
            d.register_links(s["reg"])
            d.register_paths(np.array(plan["paths"], np.int32))
            reg = [int(x) for x in d.registered_links]
            # path ids are positions in the path table
            ps = [(have[i], lset[i]) for i in plan["paths"]]
            got = d.are_registered_links_in_registered_paths()
            want = [any(l in q for _, q in ps) for l in reg]
            if list(got) != want:
                v.append(("covered", "registered links %s covered by the registered paths: %s, the paths say %s"
                          % (reg, list(got), want)))
            if mc:
                cov = d.get_registered_links_coverage_in_registered_paths()
                ref = np.array([[int(l in q) for l in reg] for _, q in ps])
                if cov.shape != ref.shape or (cov != ref).any():
                    v.append(("coverage", "the coverage matrix differs from the registered paths"))
            new = []         # paths added so far

            def table(folder, old, what):
                """checks the saved table; returns the rows beyond the old ones"""
                t = read_table(folder)
                if t is None:
                    v.append(("table", "%s: the saved path table cannot be read" % what))
                    return []
                rest = list(t)
                for nodes, sh in old:
                    for k, (a, b) in enumerate(rest):
                        if a == nodes and len(b) == len(sh) and all(abs(x - y) <= 1e-6 for x, y in zip(b, sh)):
                            del rest[k]
                            break
                    else:
                        v.append(("table", "%s: path %s with shares %s is not in the saved table" % (what, nodes, sh)))
                        return []
                for nodes, sh in rest:
                    e = self.legal(s, nodes, by, pairs)
                    if e:
                        v.append(("illegal", "%s: new path %s: %s" % (what, nodes, e)))
                        return []
                    if any(sh) or len(sh) != (2 if mc else 1) * s["maxi"]:
                        v.append(("table", "%s: new path %s has shares %s" % (what, nodes, sh)))
                        return []
                return rest
            old = [(tuple(p[0]), tuple(float(x) for x in p[1] + p[2])) for p in s["paths"]]
            for op in plan["ops"]:
                if v:
                    break
                i = None
                dst = out if op["op"] == "shortest" else net
                if fl:
                    i = W.L.sim_fault(dst.encode(), ("/" + fl["file"]).encode(), FAULT[fl["kind"]], fl["arg"])
                err = res = None
                try:
                    if op["op"] == "cover":
                        res = d.generate_paths_to_cover_registered_links()
                    elif op["op"] == "links":
                        res = d.generate_paths_to_cover_links(np.array(op["links"], np.int32), op["iter"])
                    else:
                        d.generate_shortest_pathsets(out, op["iter"], op["vot"], op["mid"], op["heavy"], op["minlen"])
                except Exception as e:
                    err = e
                fired = 0
                if fl:
                    fired = W.L.sim_fault_fired(i)
                    W.L.sim_fault_off(i)
                    if fired:
                        n[fl["kind"]] = n.get(fl["kind"], 0) + 1
                n[op["op"]] = n.get(op["op"], 0) + 1
                if fired and fl["kind"] in ("OPENW", "EMFILE"):
                    if err is None:
                        v.append(("silent", "%s: %s could not be written, and nothing was raised" % (op["op"], fl["file"])))
                    break
                can = {}
                for l in set(reg) | set(op.get("links", [])):
                    up, down = reach(bwd, links[l]["a"]), reach(fwd, links[l]["b"])
                    can[l] = any(a in up and b in down for a, b in pairs)
                if op["op"] == "cover":
                    cur = [any(l in q for _, q in ps) for l in reg]
                    if not mc and err is not None:
                        if all(c or can[l] for c, l in zip(cur, reg)):
                            v.append(("refused", "paths could be generated, but: %s: %s" % (type(err).__name__, str(err)[:100])))
                        break
                    if err is not None:
                        v.append(("exception", "cover raised %s: %s" % (type(err).__name__, str(err)[:100])))
                        break
                    want = [int(c or can[l]) for c, l in zip(cur, reg)]
                    if list(res[1:]) != want or int(res[0]) != int(not all(cur)):
                        v.append(("cover", "links %s, covered before: %s, coverable: %s; reported: %s" % (reg, cur, want, list(res))))
                        break
                    if not all(cur):
                        rest = table(net, old, "cover")
                        if v:
                            break
                        q = [{by[a, b] for a, b in zip(p, p[1:])} for p, _ in rest]
                        for l, c, w in zip(reg, cur, want):
                            if w and not c and not any(l in x for x in q):
                                v.append(("cover", "link %d is reported as covered, but no new path contains it" % l))
                        ps += [(p, x) for (p, _), x in zip(rest, q)]
                        old += rest
                        got = d.are_registered_links_in_registered_paths()
                        if [int(x) for x in got] != want:
                            v.append(("covered", "after generating paths, links %s are covered: %s, expected %s" % (reg, list(got), want)))
                elif op["op"] == "links":
                    if err is not None:
                        v.append(("exception", "links raised %s: %s" % (type(err).__name__, str(err)[:100])))
                        break
                    rest = table(net, old, "links")
                    if v:
                        break
                    if len(set(p for p, _ in rest)) != len(rest) or any(p in [a for a, _ in old] for p, _ in rest):
                        v.append(("links", "a path was added twice"))
                    q = [{by[a, b] for a, b in zip(p, p[1:])} for p, _ in rest]
                    want = [sum(l in x for x in q) for l in op["links"]]
                    # a link named twice is counted for each mention
                    if list(res) != want:
                        v.append(("links", "links %s: new paths through them %s, reported %s" % (op["links"], want, list(res))))
                    for l in op["links"]:
                        if can[l] and not any(l in x for x in q) and not any(l in {by[a, b] for a, b in zip(p, p[1:])} for p, _ in old):
                            v.append(("links", "link %d can be covered and is not" % l))
                    ps += [(p, x) for (p, _), x in zip(rest, q)]
                    old += rest
                else:
                    if err is not None:
                        v.append(("exception", "shortest raised %s: %s" % (type(err).__name__, str(err)[:100])))
                        break
                    v += self.shortest(s, op, read_table(out), by, links, pairs)
            # the saved table loads again
            changed = any(o["op"] != "shortest" for o in plan["ops"]) and not v and not (fl and n.get(fl["kind"]) and fl["kind"] in ("OPENW", "EMFILE"))
            del d
            gc.collect()
            if changed:
                t = read_table(net)
                s2 = copy.deepcopy(s)
                m = s["maxi"]
                s2["paths"] = [[list(a), list(b[:m]), list(b[m:])] for a, b in t]
                for name in ("config.conf",):
                    with open(os.path.join(net, name), "w") as f:
                        f.write(G.render(s2)[name])
                d = W.load(s2, net)
                tr = W.traces()[-1]
                R = O.Run(s2, d, tr)
                v += [("again/" + k, x) for k, x in O.conservation(R) + O.demand(R) + O.routes(R)]
                R.d = None
                del R, d
        except Exception as e:
            v.append(("exception", "the program raised %s: %s" % (type(e).__name__, str(e)[:200])))
        gc.collect()
        bad = W.end()
        if bad:
            v.append(("heap", "heap damage: " + bad))
        r = self.result(W, s, tr, v, f=n)
        r["nontrivial"] = True
        if r["il"] == "-":
            r["il"] = repr(plan["ops"]) + s["seed"]
        return r

    def shortest(self, s, op, t, by, links, pairs):
        if t is None:
            return [("table", "shortest: the saved path table cannot be read")]
        sets = {}
        for nodes, sh in t:
            e = self.legal(s, nodes, by, pairs)
            if e:
                return [("illegal", "shortest: path %s: %s" % (nodes, e))]
            if len(set(nodes)) != len(nodes):
                return [("illegal", "shortest: path %s visits a node twice" % (nodes,))]
            if any(sh) or len(sh) != 2 * s["maxi"]:
                return [("table", "shortest: path %s has shares %s" % (nodes, sh))]
            sets.setdefault((nodes[0], nodes[-1]), []).append(nodes)
        toll = {q[0]: q[1] for q in s.get("toll") or []}

        def length(l):
            return l["len"] if l["type"] != "CTM" else max(l["len"], l["ffs"] * s["ut"] / 3600.0)

        def cost(l):
            return op["vot"] * length(l) / l["ffs"] * 3600.0 + toll.get(l["id"], 0)
        for (a, b) in pairs:
            ps = sets.pop((a, b), [])
            if len(set(ps)) != len(ps):
                return [("shortest", "%d-%d: a path is listed twice" % (a, b))]
            if len(ps) > 1 + 2 * op["iter"]:
                return [("shortest", "%d-%d: %d paths after %d iterations" % (a, b, len(ps), op["iter"]))]
            best = self.best(s, b, cost)
            if a not in best:
                continue
            for p in ps:
                L = sum(length(links[by[x, y]]) * 1600.0 for x, y in zip(p, p[1:]))
                if L <= op["minlen"] * (1 - 1e-9):
                    return [("shortest", "%d-%d: path %s of length %r is listed, the minimum is %r" % (a, b, p, L, op["minlen"]))]
            if op["minlen"] > 0:
                continue
            if not ps:
                return [("shortest", "%d-%d: no path" % (a, b))]
            c = sum(cost(links[by[x, y]]) for x, y in zip(ps[0], ps[0][1:]))
            if c > best[a] * (1 + 1e-6) + 1e-9:
                return [("shortest", "%d-%d: the first path %s costs %r, the cheapest %r" % (a, b, ps[0], c, best[a]))]
            if op["iter"] == 0 and len(ps) != 1:
                return [("shortest", "%d-%d: %d paths without iterations" % (a, b, len(ps)))]
            # every further path is the cheapest one for costs with some links made dearer
            f = max(op["mid"], op["heavy"])
            for p in ps[1:]:
                c = sum(cost(links[by[x, y]]) for x, y in zip(p, p[1:]))
                if c > best[a] * f * (1 + 1e-6) + 1e-9:
                    return [("shortest", "%d-%d: path %s costs %r, more than %g times the cheapest %r" % (a, b, p, c, f, best[a]))]
        if sets:
            return [("shortest", "paths for %s, which have no demand" % sorted(sets))]
        return []

    @staticmethod
    def best(s, dest, cost):
        d = {dest: 0.0}
        for _ in range(len(s["nodes"]) + 1):
            ch = False
            for l in s["links"]:
                if l["b"] in d:
                    c = d[l["b"]] + cost(l)
                    if c < d.get(l["a"], 1e300) - 1e-12:
                        d[l["a"]] = c
                        ch = True
            if not ch:
                break
        return d

    def shrink(self, plan):
        if plan["fault"]:
            p = copy.deepcopy(plan)
            p["fault"] = None
            yield p
        for i in range(len(plan["ops"])):
            if len(plan["ops"]) > 1:
                p = copy.deepcopy(plan)
                del p["ops"][i]
                yield p
            if plan["ops"][i].get("links") and len(plan["ops"][i]["links"]) > 1:
                p = copy.deepcopy(plan)
                p["ops"][i]["links"] = p["ops"][i]["links"][:-1]
                yield p
        if len(plan["s"]["reg"]) > 1:
            for i in range(len(plan["s"]["reg"])):
                p = copy.deepcopy(plan)
                del p["s"]["reg"][i]
                yield p
        for s in shrink_scenario(plan["s"]):
            if s["reg"] and s["paths"]:
                ids = {l["id"] for l in s["links"]}
                p = copy.deepcopy(plan)
                p["s"] = s
                p["paths"] = [i for i in p["paths"] if i < len(s["paths"])] or [0]
                for o in p["ops"]:
                    if "links" in o:
                        o["links"] = [l for l in o["links"] if l in ids] or [s["links"][0]["id"]]
                yield p
