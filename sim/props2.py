"""Program-level properties: reproducibility, isolation, silence()."""
import copy
import ctypes
import gc
import hashlib
import os
import pickle
import random
import resource
import shutil

import numpy as np

import gen as G
import oracles as O
import queries as Q
from props import Base, prop, shrink_scenario



def collect(d, s, T):
    q = Q.table(s, T, full=s["reg"] is None)
    return {k: Q.ask(f, d) for k, f in q.items()}


@prop
class C05(Base):
    """Same inputs and same random state: same loading, whatever else happens."""
    id = "C05"
    repeatable = True
    budget = {"quick": 6000, "thorough": 40000}
    knobs = dict(rec=0.3)

    def plan(self, seed, tier):
        kind = self.kinds[seed % 2]
        r = random.Random("C05/%d" % seed)
        s = G.gen("C05/%d" % seed, kind, **self.knobs)
        var = []
        for i in range(r.choice([1, 1, 2])):
            v = {"heap": r.choice([0, 1, 2, 3]), "hseed": r.randrange(1 << 30),
                 "fill": r.choice([0, 0x5A, 0xA5, 0xFF, 0x7F]), "ent": r.randrange(1 << 30),
                 "draws": r.choice([0, 0, 1, 7, 1000]), "junk": r.choice([0, 0, 3, 50]), "prev": None, "keep": 0}
            if r.random() < 0.4:
                v["prev"] = G.gen("C05/%d/prev%d" % (seed, i), r.choice(self.kinds), budget=60)
                v["keep"] = r.choice([0, 1])
            v["cc"] = r.choice(["same", "same", "none", "tree", "other"])
            v["verbose"] = int(r.random() < 0.15)
            var.append(v)
        return {"s": s, "var": var}

    def execute(self, W, plan, root):
        s = plan["s"]
        v = []
        W.begin(s["sim"], cap=self.cap)
        rand = ctypes.CDLL(None).rand
        new = ctypes.CDLL(None)["_Znwm"]
        new.argtypes = [ctypes.c_size_t]
        new.restype = ctypes.c_void_p
        ref = None
        tr0 = None
        keep = []
        n = {}
        try:
            for i, var in enumerate([None] + plan["var"]):
                if var is not None:
                    W.L.sim_heap_policy(var["heap"], var["hseed"], var["fill"])
                    W.entropy(var["ent"])
                    n["heap_layout"] = n.get("heap_layout", 0) + 1
                    n["clock_and_entropy"] = n.get("clock_and_entropy", 0) + 1
                    for k in range(var["junk"]):
                        new(16 * (1 + k % 9))
                    if var["prev"]:
                        pr = os.path.join(root, "p%d" % i)
                        os.mkdir(pr)
                        G.write(var["prev"], pr)
                        d = W.load(var["prev"], pr)
                        n["other_instance"] = n.get("other_instance", 0) + 1
                        if var["keep"]:
                            keep.append(d)
                        del d
                    for k in range(var["draws"]):
                        rand()
                    n["extra_draws"] = n.get("extra_draws", 0) + (1 if var["draws"] else 0)
                rt = os.path.join(root, "r%d" % i)
                os.mkdir(rt)
                G.write(s, rt)
                cc = var["cc"] if var else "same"
                s1 = s
                if cc == "other":
                    s1 = copy.copy(s)
                    s1["reg"] = [l["id"] for l in s["links"][::2]] if s["reg"] is None else None
                d = W.load(s1, rt, cc=cc != "none", tree=cc == "tree", verbose=bool(var and var["verbose"]))
                if cc != "same":
                    n["curves_" + cc] = n.get("curves_" + cc, 0) + 1
                tr = W.traces()[-1]
                res = collect(d, s, tr.T) if cc in ("same", "tree") else {"travel_stats": Q.ask(lambda x: x.get_travel_stats(), d)}
                res.update(Q.files(rt))
                del d
                gc.collect()
                if ref is None:
                    ref, tr0 = res, tr
                    continue
                x = Q.same_history(tr0, tr)
                if x:
                    v.append(("history", "execution %d with the same random state differs: %s" % (i, x)))
                    break
                for k in sorted(set(ref) | set(res)) if cc in ("same", "tree") else sorted(set(ref) & set(res)):
                    if k not in res or k not in ref or not Q.same(ref[k], res[k]):
                        v.append(("result", "execution %d: %s differs: %s" % (
                            i, k, Q.diff(ref.get(k, "absent"), res.get(k, "absent")))))
                        break
        except Exception as e:
            v.append(("exception", "the program raised %s: %s" % (type(e).__name__, str(e)[:200])))
        keep = None
        gc.collect()
        bad = W.end()
        if bad:
            v.append(("heap", "heap damage: " + bad))
        return self.result(W, s, tr0, v, f=n)

    def shrink(self, plan):
        for i in range(len(plan["var"])):
            if len(plan["var"]) > 1:
                p = copy.deepcopy(plan)
                del p["var"][i]
                yield p
            for k, z in (("prev", None), ("junk", 0), ("draws", 0), ("fill", 0), ("verbose", 0)):
                if plan["var"][i][k]:
                    p = copy.deepcopy(plan)
                    p["var"][i][k] = z
                    yield p
            if plan["var"][i]["cc"] != "same":
                p = copy.deepcopy(plan)
                p["var"][i]["cc"] = "same"
                yield p
        for s in shrink_scenario(plan["s"]):
            p = copy.deepcopy(plan)
            p["s"] = s
            yield p


# =========================================================================
class _Boom(Exception):
    pass


class _BoomBase(BaseException):
    pass


EXC = {"value": ValueError, "boom": _Boom, "kbd": KeyboardInterrupt, "base": _BoomBase, "os": OSError, "stop": StopIteration,
       "gen": GeneratorExit}


@prop
class C15(Base):
    """silence(): programs of nested silenced blocks, writes, exceptions and
    descriptor exhaustion over several descriptors."""
    id = "C15"
    budget = {"quick": 20000, "thorough": 200000}
    wall = {"quick": 45, "thorough": 600}
    nfd = 4

    def plan(self, seed, tier):
        r = random.Random("C15/%d" % seed)
        fds = [1, 2] + r.sample(range(20, 60), 2)
        cnt = [0]

        def block(depth):
            out = []
            for _ in range(r.choice([1, 2, 2, 3])):
                x = r.random()
                if x < 0.45 or depth > 4:
                    cnt[0] += 1
                    out.append(["w", r.randrange(4), cnt[0]])
                elif x < 0.8:
                    f = r.choice([0, 0, 1, 2, 3, "bad", "badneg", "default", "badtype"])
                    body = block(depth + 1)
                    lim = r.choice([None, None, None, 0, 1, 2, 3])
                    out.append(["s", f, body, lim, r.choice([None, None, None, None, "devnull"])])
                elif x < 0.9:
                    out.append(["raise", r.choice(sorted(EXC))])
                elif x < 0.95:
                    out.append(["try", block(depth + 1)])
                else:
                    out.append(["lib", r.randrange(1 << 20)])
            return out
        return {"fds": fds, "prog": [["try", block(0)] for _ in range(r.choice([1, 2, 3]))],
                "s": None, "seed": seed}

    def execute(self, W, plan, root):
        import macposts.utils as U
        v = []
        fds = plan["fds"]
        names = [os.path.join(root, "t%d" % i) for i in range(4)]
        back = {}
        for i, fd in enumerate(fds):
            try:
                back[fd] = os.dup(fd)
            except OSError:
                back[fd] = None
        for i, fd in enumerate(fds):
            t = os.open(names[i], os.O_RDWR | os.O_CREAT | os.O_APPEND, 0o600)
            os.dup2(t, fd)
            os.close(t)
        self.want = [[] for _ in fds]    # bytes that must reach each target, in order
        self.silent = [0] * 4            # model: how deep is each descriptor silenced
        W.begin({"pol": 0, "salt": plan["seed"], "heap": 0, "hseed": 1, "fill": 0}, heap_on=0, observe=0)
        n = {}
        steps = [0]
        log = []

        def opened():
            out = []
            for x in sorted(int(x) for x in os.listdir("/proc/self/fd")):
                try:
                    os.fstat(x)
                    out.append(x)
                except OSError:
                    pass
            return tuple(out)

        def ids():
            return [(os.fstat(fd).st_dev, os.fstat(fd).st_ino) for fd in fds]

        def bad(kind, msg):
            v.append((kind, msg))

        def do(block):
            for op in block:
                steps[0] += 1
                if op[0] == "w":
                    data = ("<%d>" % op[2]).encode()
                    os.write(fds[op[1]], data)
                    if not self.silent[op[1]]:
                        self.want[op[1]].append(data)
                    log.append(("w", op[1], self.silent[op[1]] > 0))
                elif op[0] == "raise":
                    e = EXC[op[1]]("x%d" % steps[0])
                    log.append(("raise", op[1]))
                    raise e
                elif op[0] == "try":
                    try:
                        do(op[1])
                    except BaseException as e:
                        log.append(("caught", type(e).__name__))
                        if isinstance(e, Mismatch):
                            raise
                elif op[0] == "lib":
                    # the extension writing to descriptor 1 through C++ streams
                    lib_print(op[1])
                elif op[0] == "s":
                    silenced(op)

        class Mismatch(BaseException):
            pass

        libc = ctypes.CDLL(None)

        def lib_print(k):
            data = ("{%d}" % k).encode()
            libc.printf(data)
            libc.fflush(None)
            if not self.silent[0]:
                self.want[0].append(data)
            log.append(("lib", self.silent[0] > 0))

        def silenced(op):
            f, body, lim, fault = op[1], op[2], op[3], op[4]
            if f == "default":
                ctx, k = U.silence(), 0
            elif f == "bad":
                ctx, k = U.silence(199), None
            elif f == "badneg":
                ctx, k = U.silence(-1), None
            elif f == "badtype":
                ctx, k = U.silence("no descriptor"), None
            else:
                ctx, k = U.silence(fds[f]), f
            before_fd, before_id = opened(), ids()
            old = resource.getrlimit(resource.RLIMIT_NOFILE)
            fi = -1
            if lim is not None:
                # exactly `lim` further descriptors can be had
                used = set(before_fd)
                free = [x for x in range(0, 400) if x not in used]
                resource.setrlimit(resource.RLIMIT_NOFILE, (free[lim], old[1]))
            if fault:
                fi = W.L.sim_fault(b"", b"/dev/null", 2 if op[3] is None else 11, 0)
            err = None
            entered = False
            inner = None
            try:
                try:
                    with ctx:
                        entered = True
                        resource.setrlimit(resource.RLIMIT_NOFILE, old)
                        if fi >= 0:
                            W.L.sim_fault_off(fi)
                        if k is not None:
                            self.silent[k] += 1
                        try:
                            do(body)
                        except BaseException as e:
                            inner = e
                            raise
                        finally:
                            if k is not None:
                                self.silent[k] -= 1
                except BaseException as e:
                    err = e
            finally:
                resource.setrlimit(resource.RLIMIT_NOFILE, old)
                if fi >= 0:
                    W.L.sim_fault_off(fi)
            if fi >= 0 and W.L.sim_fault_fired(fi):
                n["open_devnull_fails"] = n.get("open_devnull_fails", 0) + 1
            if lim is not None and not entered:
                n["descriptors_exhausted"] = n.get("descriptors_exhausted", 0) + 1
            log.append(("s", str(f), entered, type(inner).__name__, type(err).__name__))
            if isinstance(err, Mismatch):
                raise err
            if inner is not None and err is not inner:
                if isinstance(inner, StopIteration) and isinstance(err, RuntimeError) and err.__cause__ is inner:
                    pass   # PEP 479 wraps what a generator lets through
                else:
                    bad("exception", "silence(%s): the block raised %r but the caller saw %r" % (f, inner, err))
            elif inner is None and entered and err is not None:
                bad("exception", "silence(%s) raised %r on leaving the block" % (f, err))
            elif not entered and err is None:
                bad("exception", "silence(%s): the block was not executed" % f)
            elif not entered and not isinstance(err, OSError):
                bad("exception", "silence(%s) failed to start with %r" % (f, err))
            elif not entered and lim is None and fi < 0:
                bad("exception", "silence(%s) failed to start: %r" % (f, err))
            after_fd, after_id = opened(), ids()
            if after_fd != before_fd:
                bad("leak", "silence(%s)%s: open descriptors were %s, are %s" % (
                    f, "" if entered else " which failed to start", list(before_fd), list(after_fd)))
            if after_id != before_id:
                bad("restore", "silence(%s): descriptor no longer refers to the same file" % f)
            if v:
                raise Mismatch()
            if err is not None:
                raise err

        try:
            do(plan["prog"])
        except Mismatch:
            pass
        except BaseException as e:
            v.append(("exception", "unexpected %r" % e))
        W.end()
        for fd in fds:
            if back[fd] is not None:
                os.dup2(back[fd], fd)
            else:
                os.close(fd)
        if not v:
            for i in range(4):
                got = open(names[i], "rb").read()
                want = b"".join(self.want[i])
                if got != want:
                    v.append(("bytes", "descriptor %d: %r arrived, expected %r" % (fds[i], got[:120], want[:120])))
                    break
        dg = hashlib.sha256(repr(log).encode()).hexdigest()[:16]
        return {"v": [{"kind": a, "msg": b} for a, b in v[:4]], "f": n,
                "st": {"steps": steps[0]}, "h": hashlib.sha256((dg + repr(v)).encode()).hexdigest()[:16], "il": dg,
                "nontrivial": any(x[0] == "s" for x in log), "states": [],
                "tags": sorted(set("%s:%s" % (x[0], x[1]) for x in log if x[0] in ("s", "raise")))}

    def shrink(self, plan):
        def cuts(b):
            for i in range(len(b)):
                yield b[:i] + b[i + 1:]
                if b[i][0] == "try":
                    for c in cuts(b[i][1]):
                        yield b[:i] + [["try", c]] + b[i + 1:]
                    yield b[:i] + b[i][1] + b[i + 1:]
                if b[i][0] == "s":
                    for c in cuts(b[i][2]):
                        yield b[:i] + [b[i][:2] + [c] + b[i][3:]] + b[i + 1:]
                    for j in (3, 4):
                        if b[i][j] is not None:
                            q = list(b[i])
                            q[j] = None
                            yield b[:i] + [q] + b[i + 1:]
        for c in cuts(plan["prog"]):
            if c:
                p = dict(plan)
                p["prog"] = c
                yield p
