"""C29 time-dependent shortest paths from tables and files."""
import copy
import gc
import hashlib
import math
import os
import random

import numpy as np

import gen as G
from props import Base, prop
from world import FAULT

TXT = ("td_link_tt", "td_link_cost", "td_node_tt", "td_node_cost")
INF = float("inf")


def text(rows, head):
    return head + "\n" + "".join(" ".join(str(int(x)) for x in k) + " " + " ".join(_n(x) for x in v) + "\n" for k, v in rows)


def _n(x):
    return "inf" if x == INF else ("%d" % x if x == int(x) else repr(x))


def up(tt):
    return max(1, int(math.ceil(tt)))


def labels(links, c, tt, dest, M):
    """Least cost to dest from every node and interval."""
    nodes = {l[1] for l in links} | {l[2] for l in links}
    last = {n: INF for n in nodes}
    last[dest] = 0.0
    for _ in range(len(nodes)):
        ch = False
        for i, a, b in links:
            x = c[i][M - 1] + last[b]
            if a != dest and x < last[a]:
                last[a], ch = x, True
        if not ch:
            break
    d = [None] * M
    d[M - 1] = last
    for t in range(M - 2, -1, -1):
        e = {n: INF for n in nodes}
        e[dest] = 0.0
        for i, a, b in links:
            if a != dest:
                x = c[i][t] + d[min(t + up(tt[i][t]), M - 1)][b]
                if x < e[a]:
                    e[a] = x
        d[t] = e
    return d


@prop
class C29(Base):
    id = "C29"
    budget = {"quick": 12000, "thorough": 60000}
    kinds = ["dta"]
    knobs = dict(budget=10, td=0.0, labels=0.0, emis=0.0, tdad=0.0)
    repeatable = True

    def tables(self, r, s, M, turns):
        ids = [l["id"] for l in s["links"]]
        pal = r.choice([[0.25, 0.5, 1, 2], [1, 2, 3, 7], [0.25, 1.25, 3.75, 12, 40], [0, 0.5, 1, 1, 1]])
        def row(p):
            x = [r.choice(p)]
            while len(x) < M:
                x.append(x[-1] if r.random() < 0.6 else r.choice(p))
            return x
        tt = {i: row(pal) for i in ids}
        own = r.random() < 0.7
        cpal = r.choice([[0.5, 1, 2, 8], [1, 1, 2], [0, 0.25, 30, 100]])
        cost = {i: row(cpal) if own else list(tt[i]) for i in ids}
        zero = not turns or r.random() < 0.6
        if zero and r.random() < 0.3:
            for i in ids:
                if r.random() < 0.2:
                    cost[i] = [INF if r.random() < 0.6 else x for x in cost[i]]
        ntt = [row([0]) if zero else row([0, 0.5, 1, 2.25]) for _ in turns]
        nc = [row([0, 0, 1, 6]) for _ in turns]
        ro = ids[:]
        r.shuffle(ro)
        return {"tt": [[i, tt[i]] for i in ro], "cost": [[i, cost[i]] for i in ro], "ntt": ntt, "nc": nc}

    def plan(self, seed, tier):
        r = random.Random("C29/%d" % seed)
        s = G.gen("C29/%d" % seed, "dta", cyclic=r.random() < 0.5, **self.knobs)
        M = r.choice([1, 2, 3, 8, 25, 60])
        turns = []
        if r.random() < 0.3:
            turns = [[a["b"], a["id"], b["id"]] for a in s["links"] for b in s["links"] if a["b"] == b["a"] and r.random() < 0.6]
        T = [self.tables(r, s, M, turns) for _ in range(r.choice([1, 1, 2]))]
        nodes = sorted({l["a"] for l in s["links"]} | {l["b"] for l in s["links"]})
        prog = [["read", i, 0, r.choice(["txt", "py"])] for i in (0, 1)]
        for _ in range(r.choice([2, 4, 8])):
            i, x = r.randrange(2), r.random()
            if x < 0.2:
                prog.append(["read", i, r.randrange(len(T)), r.choice(["txt", "py"])])
            elif x < 0.6:
                prog.append(["build", i, r.choice(nodes)])
            else:
                prog.append(["build", i, r.choice(nodes)])
                prog.append(["build", 1 - i, prog[-1][2]])
        fault = None
        if r.random() < 0.4:
            fl = [x for x in (TXT if turns else TXT[:2])]
            kind = r.choice(["MISSING", "EACCES", "EMFILE", "EIO_READ", "TRUNC", "TRUNC", "TRUNC", "SHORT", "EINTR"])
            fault = {"file": r.choice(fl), "kind": kind, "at": r.choice([0, 0, 1, 2]), "arg": r.random(), "line": r.random() < 0.5}
        p = {"s": s, "M": M, "turns": turns, "T": T, "prog": prog, "fault": fault,
             "ask": [[r.choice(nodes), r.randrange(M)] for _ in range(r.choice([2, 4, 6]))]}
        return p

    def files(self, plan, k):
        T, tu = plan["T"][k], plan["turns"]
        f = {"td_link_tt": text([([i], v) for i, v in T["tt"]], "link_ID tt"),
             "td_link_cost": text([([i], v) for i, v in T["cost"]], "link_ID cost")}
        if tu:
            f["td_node_tt"] = text(list(zip(tu, T["ntt"])), "node in out tt")
            f["td_node_cost"] = text(list(zip(tu, T["nc"])), "node in out cost")
        return f

    def execute(self, W, plan, root):
        s, v, n = plan["s"], [], {}
        M, turns = plan["M"], plan["turns"]
        with open(os.path.join(root, "config.conf"), "w") as f:
            f.write("[Network]\nnetwork_name = Snap_graph\nnum_of_link = %d\n" % len(s["links"]))
        with open(os.path.join(root, "Snap_graph"), "w") as f:
            f.write("# link from to\n" + "".join("%d %d %d\n" % (l["id"], l["a"], l["b"]) for l in s["links"]))
        for k in range(len(plan["T"])):
            os.mkdir(os.path.join(root, "t%d" % k))
            for name, t in self.files(plan, k).items():
                with open(os.path.join(root, "t%d" % k, name), "w") as f:
                    f.write(t)
        links = [(l["id"], l["a"], l["b"]) for l in s["links"]]
        ends = {i: (a, b) for i, a, b in links}
        W.begin(s["sim"], cap=self.cap)
        h = hashlib.sha256()
        inst, state = [], [None, None]
        try:
            for _ in range(2):
                x = W.mp.Tdsp()
                x.initialize(root, M, len(links), len(turns) if turns else -1)
                inst.append(x)
        except Exception as e:
            v.append(("exception", "initialize raised %s: %s" % (type(e).__name__, str(e)[:200])))
        reads = 0
        answers = {}
        for op in plan["prog"] if not v else ():
            i = op[1]
            if op[0] == "read":
                v += self.read(W, plan, root, inst[i], op, reads, n)
                if op[3] == "txt":
                    reads += 1
                state[i] = op[2]
            else:
                v += self.ask(plan, inst[i], state[i], op[2], links, ends, answers, n, h)
            if v:
                break
        del inst
        x = None
        gc.collect()
        bad = W.end()
        if bad:
            v.append(("heap", "heap damage: " + bad))
        r = self.result(W, s, None, v, f=n)
        r["h"] = hashlib.sha256((r["h"] + h.hexdigest()).encode()).hexdigest()[:16]
        r["il"] = h.hexdigest()
        r["nontrivial"] = n.get("routes", 0) > 0
        return r

    def read(self, W, plan, root, x, op, reads, n):
        M, turns, k = plan["M"], plan["turns"], op[2]
        T = plan["T"][k]
        if op[3] == "py":
            z = np.zeros((0, M + 3))
            a = [np.array([[i] + w for i, w in T[q]], float) for q in ("tt", "cost")]
            b = [np.array([t + w for t, w in zip(turns, T[q])], float) if turns else z for q in ("ntt", "nc")]
            try:
                x.read_td_cost_py(a[0], a[1], b[0], b[1])
            except Exception as e:
                return [("exception", "read_td_cost_py raised %s: %s" % (type(e).__name__, str(e)[:200]))]
            return []
        folder = os.path.join(root, "t%d" % k)
        fl = plan["fault"]
        if fl and fl["at"] == reads:
            t = self.files(plan, k)[fl["file"]]
            arg = {"SHORT": 7, "EINTR": 2}.get(fl["kind"], 0)
            if fl["kind"] in ("EIO_READ", "TRUNC"):
                cuts = [j + 1 for j, c in enumerate(t) if c == "\n" and j + 1 < len(t)]
                arg = cuts[int(fl["arg"] * len(cuts))] if fl["line"] and cuts else int(fl["arg"] * len(t))
            lost = fl["kind"] in ("EIO_READ", "TRUNC") and len(t[:arg].split()) < len(t.split())
            j = W.L.sim_fault(root.encode(), ("/" + fl["file"]).encode(), FAULT[fl["kind"]], arg)
            err = None
            try:
                x.read_td_cost_txt(folder, "td_link_tt", "td_node_tt", "td_link_cost", "td_node_cost")
            except Exception as e:
                err = e
            fired = W.L.sim_fault_fired(j)
            W.L.sim_fault_off(j)
            if fired:
                n[fl["kind"]] = n.get(fl["kind"], 0) + 1
                if err is None and (lost or fl["kind"] in ("MISSING", "EACCES", "EMFILE")):
                    return [("silent", "%s was read although %s at byte %d of %d" % (fl["file"], fl["kind"], arg, len(t)))]
                if err is not None and fl["kind"] in ("SHORT", "EINTR"):
                    return [("exception", "short or interrupted reads of %s raised %s" % (fl["file"], str(err)[:100]))]
                if fl["kind"] in ("SHORT", "EINTR"):
                    return []
        try:
            x.read_td_cost_txt(folder, "td_link_tt", "td_node_tt", "td_link_cost", "td_node_cost")
        except Exception as e:
            return [("exception", "read_td_cost_txt raised %s: %s" % (type(e).__name__, str(e)[:200]))]
        return []

    def ask(self, plan, x, k, dest, links, ends, answers, n, h):
        M, T, turns = plan["M"], plan["T"][k], plan["turns"]
        tt, c = dict(T["tt"]), dict(T["cost"])
        ntt = {(a, b): w for (_, a, b), w in zip(turns, T["ntt"])}
        nc = {(a, b): w for (_, a, b), w in zip(turns, T["nc"])}
        delay = any(any(w) for w in T["ntt"])
        try:
            x.build_tdsp_tree(dest)
        except Exception as e:
            return [("exception", "build_tdsp_tree raised %s: %s" % (type(e).__name__, str(e)[:200]))]
        lab = labels(links, c, tt, dest, M)
        for o, t in plan["ask"]:
            what = "from %d to %d at interval %d of %d" % (o, dest, t, M)
            try:
                a = x.extract_tdsp(o, t)
            except Exception as e:
                return [("exception", "extract_tdsp %s raised %s: %s" % (what, type(e).__name__, str(e)[:200]))]
            h.update(a.tobytes())
            ref = answers.setdefault((k, dest, o, t), a)
            if a.shape != ref.shape or (a != ref).any():
                return [("differs", "%s: %s once, %s another time" % (what, ref.tolist(), a.tolist()))]
            cost, time = float(a[0, 2]), float(a[0, 3])
            best = lab[t][o]
            nodes, ls = [int(q) for q in a[:, 0]], [int(q) for q in a[:-1, 1]]
            if best == INF:
                n["no_route"] = n.get("no_route", 0) + 1
                if cost != INF or time != -1:
                    return [("noroute", "%s: no route exists, cost %r and time %r reported" % (what, cost, time))]
                continue
            n["routes"] = n.get("routes", 0) + 1
            if nodes[0] != o or nodes[-1] != dest or len(nodes) != len(ls) + 1 or \
                    any(ends.get(l) != (p, q) for l, p, q in zip(ls, nodes, nodes[1:])):
                return [("route", "%s: nodes %s and links %s are no route" % (what, nodes, ls))]
            cur, wc, wt, prev, far = t, 0.0, 0.0, None, False
            for l in ls:
                if (prev, l) in ntt:
                    wc += nc[prev, l][cur]
                    d = ntt[prev, l][cur]
                    wt += d
                    cur = min(cur + int(math.ceil(d)), M - 1)
                wc += c[l][cur]
                wt += tt[l][cur]
                far = far or cur == M - 1
                cur = min(cur + up(tt[l][cur]), M - 1)
                prev = l
            if abs(wt - time) > 1e-6 * max(1, wt):
                return [("time", "%s: route %s takes %r, reported %r" % (what, nodes, wt, time))]
            if not turns and abs(cost - best) > 1e-6 * max(1, best):
                return [("optimum", "%s: least cost %r, reported %r by %s" % (what, best, cost, nodes))]
            if (not turns or not (delay or far)) and abs(cost - wc) > 1e-6 * max(1, wc):
                return [("cost", "%s: route %s costs %r, reported %r" % (what, nodes, wc, cost))]
            if turns and not delay and cost < best - 1e-6:
                return [("optimum", "%s: cost %r reported, no route costs less than %r" % (what, cost, best))]
        return []

    def shrink(self, plan):
        for i in range(len(plan["prog"]) - 1, 1, -1):
            p = copy.deepcopy(plan)
            del p["prog"][i]
            yield p
        for i in range(len(plan["ask"])):
            if len(plan["ask"]) > 1:
                p = copy.deepcopy(plan)
                del p["ask"][i]
                yield p
        if plan["fault"]:
            yield dict(plan, fault=None)
        if plan["turns"]:
            yield dict(plan, turns=[], T=[dict(t, ntt=[], nc=[]) for t in plan["T"]])
