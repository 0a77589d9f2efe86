"""Seeded search: spread simulated runs over workers, gate, minimise, report.

usage: driver.py <property> quick|thorough
       driver.py replay <file>
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
NW = int(os.environ.get("SIM_WORKERS", "8"))
# counts of what was judged, kept apart from the counts of injected faults
COUNTS = {"iterations", "gaps", "shifts", "best", "routes", "no_route", "cover", "shortest", "links", "report", "trajectories", "question"}
BASE_SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Worker:
    def __init__(self, built, scratch):
        env = dict(os.environ)
        env.update(LD_PRELOAD=built["shim"], PYTHONPATH=":".join([B.REPO, built["ext"], os.path.join(VERIF, "sim")]),
                   PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", SIM_SHIM=built["shim"], SIM_SCRATCH=scratch,
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MALLOC_ARENA_MAX="1")
        r, w = os.pipe()
        self.err = open(os.path.join(scratch, "worker.err"), "ab")
        self.p = subprocess.Popen(["/bin/bash", "-c", 'exec 3>&%d %d>&-; exec "$0" "$@"' % (w, w), B.PY, "-u",
                                   os.path.join(VERIF, "sim", "worker.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.DEVNULL, stderr=self.err, env=env, pass_fds=[w], cwd=scratch)
        os.close(w)
        self.r = os.fdopen(r, "r")
        line = self.r.readline()
        if not line:
            raise RuntimeError("worker did not start: " +
                               open(os.path.join(scratch, "worker.err")).read()[-3000:])

    def job(self, j):
        self.p.stdin.write((json.dumps(j) + "\n").encode())
        self.p.stdin.flush()
        line = self.r.readline()
        if not line:
            raise RuntimeError("worker died")
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()
        self.r.close()
        self.err.close()


def start(scratch, built, n=NW):
    ws = [None] * n
    errs = []

    def mk(i):
        try:
            ws[i] = Worker(built, scratch)
        except Exception as e:
            errs.append(e)
    ts = [threading.Thread(target=mk, args=(i,)) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    return ws


def run_many(ws, jobs, on_result, deadline, stop):
    """jobs: iterator; every worker pulls the next one."""
    lock = threading.Lock()
    errs = []

    def loop(w):
        while not stop["stop"] and time.time() < deadline:
            with lock:
                try:
                    j = next(jobs)
                except StopIteration:
                    return
            try:
                r = w.job(j)
            except Exception as e:
                errs.append(e)
                stop["stop"] = True
                return
            with lock:
                on_result(j, r)
    ts = [threading.Thread(target=loop, args=(w,)) for w in ws]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]


def kinds(r):
    return [x["kind"] for x in r.get("v", [])]


def minimise(P, ws, plan, kind, budget_s=60, max_tries=400):
    """Greedy delta debugging over the plan, candidates in parallel batches."""
    t0 = time.time()
    tries = 0
    progress = True
    while progress and time.time() - t0 < budget_s and tries < max_tries:
        progress = False
        cand = list(P.shrink(plan))
        i = 0
        while i < len(cand) and time.time() - t0 < budget_s and tries < max_tries:
            batch = cand[i:i + len(ws)]
            i += len(batch)
            tries += len(batch)
            res = [None] * len(batch)

            def go(k):
                res[k] = ws[k].job(dict({"prop": P.id, "plan": batch[k], "cpu": 15, "wall": 40}, **P.limits))
            ts = [threading.Thread(target=go, args=(k,)) for k in range(len(batch))]
            [t.start() for t in ts]
            [t.join() for t in ts]
            hit = [k for k in range(len(batch)) if res[k] and kind in kinds(res[k])]
            if hit:
                plan = batch[hit[0]]
                progress = True
                break
    return plan, tries


def known_findings():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))


def check(pid, tier):
    t0 = time.time()
    built = B.build()
    t_build = time.time() - t0
    sys.path.insert(0, os.path.join(VERIF, "sim"))
    import props_meta
    P = props_meta.meta(pid)
    scratch = tempfile.mkdtemp(prefix="simrun_", dir=os.environ.get("SIM_TMP", "/tmp"))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ws = []
    try:
        ws = start(scratch, built)
        return search(pid, tier, P, ws, built, t_build, t0)
    finally:
        for w in ws:
            w.close()
        shutil.rmtree(scratch, ignore_errors=True)


def search(pid, tier, P, ws, built, t_build, t0):
    n = int(os.environ.get("SIM_RUNS", P.budget[tier]))
    wall = float(os.environ.get("SIM_WALL", P.wall[tier]))
    agg = {"runs": 0, "st": {}, "faults": {}, "tags": {}, "il": set(), "states": set(), "samples": [], "nontrivial": 0}
    bad = []
    errs = []
    stop = {"stop": False}
    ts = time.time()
    seeds = (BASE_SEED * 1000003 + i for i in range(n))

    def jobs():
        for sd in seeds:
            yield dict({"prop": pid, "seed": sd, "tier": tier}, **P.limits)

    def on(j, r):
        if "err" in r:
            errs.append((j["seed"], r["err"]))
            if len(errs) >= 3:
                stop["stop"] = True
            return
        agg["runs"] += 1
        for k, x in r.get("st", {}).items():
            agg["st"][k] = agg["st"].get(k, 0) + x
        for k, x in r.get("f", {}).items():
            agg["faults"][k] = agg["faults"].get(k, 0) + x
        for k in r.get("tags", []):
            agg["tags"][k] = agg["tags"].get(k, 0) + 1
        if r.get("il") and r["il"] != "-":
            if r["il"] not in agg["il"] and r.get("nontrivial", r.get("st", {}).get("moves", 1) > 0):
                agg["nontrivial"] += 1
            agg["il"].add(r["il"])
        if len(agg["states"]) < 2000000:
            agg["states"].update(r.get("states", []))
        if len(agg["samples"]) < 5 and not r.get("v"):
            agg["samples"].append({"seed": j["seed"], "stats": r.get("st"), "tags": r.get("tags"), "hash": r.get("h"),
                                   "faults": r.get("f")})
        if r.get("v"):
            bad.append((j["seed"], r))
            if len(bad) >= 4:
                stop["stop"] = True

    run_many(ws, jobs(), on, ts + wall, stop)
    t_search = time.time() - ts
    code = 0
    replay = None
    nviol = 0
    notes = []
    if errs and not bad:
        print("ERROR: the machinery failed on seed %s:\n%s" % errs[0])
        code = 2
    kf = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "known"]
    seen_kf = set()
    # exact repetition of a few runs: the same seed must give the same execution
    det = {"repeated": 0, "mismatches": 0}
    if not bad and code == 0:
        again = [x for x in agg["samples"]]
        for i, x in enumerate(again):
            r = ws[i % len(ws)].job(dict({"prop": pid, "seed": x["seed"], "tier": tier}, **P.limits))
            det["repeated"] += 1
            if r.get("h") != x["hash"]:
                det["mismatches"] += 1
                notes.append("seed %d: second execution differs" % x["seed"])
        if det["mismatches"] and getattr(P, "repeatable", False):
            # every input of the execution is decided by the seed, so this is the property itself failing
            sd = [x["seed"] for x, m in zip(again, notes)][0]
            bad.append((sd, {"v": [{"kind": "repeat", "msg": notes[0]}], "h": None}))
        elif det["mismatches"]:
            print("ERROR: the simulation is not deterministic: " + "; ".join(notes))
            code = 2
    bad.sort(key=lambda b: b[0])
    for sd, r in bad:
        if code == 1:
            break
        # gate: the same seed again, in another worker
        lim = dict(P.limits)
        if "hang" in kinds(r):
            # slow is not stuck: ten times the usual run time before it counts
            lim = {"cpu": 150, "wall": 300}
        again = ws[-1].job(dict({"prop": pid, "seed": sd, "tier": tier, "want_plan": 1}, **lim))
        if "hang" in kinds(r) and not again.get("v") and "err" not in again:
            notes.append("seed %d is slow" % sd)
            agg["slow"] = agg.get("slow", 0) + 1
            continue
        plan = again.get("plan")
        if plan is None:
            plan = ws[0].job({"prop": pid, "seed": sd, "tier": tier, "op": "plan"}).get("plan")
        ka, kb = kinds(r), kinds(again)
        exact = ka == kb and r.get("h") == again.get("h")
        for k in range(4):
            if exact or kb:
                break
            again = ws[k % len(ws)].job(dict({"prop": pid, "seed": sd, "tier": tier, "want_plan": 1}, **lim))
            kb = kinds(again)
        if not kb and not (getattr(P, "repeatable", False) and ka == ["repeat"]):
            print("ERROR: seed %d did not repeat: %s / %s" % (sd, r.get("v"), again.get("v")))
            code = max(code, 2)
            continue
        if exact:
            kind = ka[0]
            small, tries = minimise(P, ws, plan, kind, budget_s=40 if tier == "quick" else 120)
            fin = ws[0].job(dict({"prop": pid, "plan": small}, **lim))
            fin2 = ws[-1].job(dict({"prop": pid, "plan": small}, **lim))
            if kind not in kinds(fin) or fin.get("h") != fin2.get("h"):
                small, fin = plan, again
        else:
            # the seed violates every time but not identically: the code under test reads memory or entropy that is
            # outside the simulator (undefined behaviour, usually); the plan is kept unminimised
            print("note: seed %d violates in repeated executions, but not identically" % sd)
            fin = again if kb else r
            kind, small, tries = kinds(fin)[0], plan, 0
        msg = [x["msg"] for x in fin["v"] if x["kind"] == kind][0]
        hit = [k for k in kf if k.get("kind") == kind and k.get("match", "") in msg]
        if hit:
            for k in hit:
                if k["id"] not in seen_kf:
                    seen_kf.add(k["id"])
                    print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            continue
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay = os.path.join(VERIF, "replays", "%s-%d.json" % (pid, sd))
        with open(replay, "w") as f:
            json.dump({"property": pid, "seed": sd, "kind": kind, "message": msg, "all": fin["v"], "hash": fin.get("h"),
                       "minimise_tries": tries, "plan": small}, f, indent=1)
        print("seed %d: %s: %s" % (sd, kind, msg))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        print("replay with: %s/check.sh replay %s" % (VERIF, replay))
        nviol += 1
        code = 1
    wall_s = time.time() - t0
    hours = max(t_search, 1e-9) / 3600.0
    ev = {"property": pid, "tier": tier, "seed": BASE_SEED, "level": P.level,
          "coverage": {
              "evaluations": agg["runs"], "distinct_nontrivial": agg["nontrivial"],
              "rule": "a run counts as non-trivial and distinct when at least one vehicle moved between links (or, for "
                      "fault and program properties, at least one fault or step took effect) and the digest of its full "
                      "event history (births, moves, deaths, route choices, queue lengths per interval) is new",
              "samples": agg["samples"][:5],
              "runs_per_hour": int(agg["runs"] / hours), "seeds_per_hour": int(agg["runs"] / hours),
              "first_seed": BASE_SEED * 1000003, "planned_runs": n,
              "simulated_seconds": agg["st"].get("sim_s", 0), "simulated_intervals": agg["st"].get("ticks", 0),
              "vehicles": agg["st"].get("veh", 0), "link_moves": agg["st"].get("moves", 0),
              "random_draws_served": agg["st"].get("rand", 0), "heap_allocations_placed": agg["st"].get("news", 0),
              "faults_injected": {k: x for k, x in sorted(agg["faults"].items()) if k not in COUNTS},
              "checked_counts": {k: x for k, x in sorted(list(agg["st"].items()) + list(agg["faults"].items()))
                                 if k in COUNTS or (k in agg["st"] and k not in
                                                    ("sim_s", "ticks", "veh", "moves", "rand", "news"))},
              "distinct_interleavings": len(agg["il"]),
              "distinct_states": len(agg["states"]),
              "state_measure": "48-bit hash of all link queue/incoming lengths and the released/enroute/finished counts "
                               "at up to 48 intervals per run",
              "configurations": agg["tags"],
              "determinism": det,
              "real_components": P.real, "stub_components": P.stub},
          "wall_s": round(wall_s, 1), "build_s": round(t_build, 1),
          "assumptions": P.assumptions, "violations": nviol}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs, %d distinct histories, %d distinct states, %.0f simulated h, %d violations, %.1f s (build %.1f)"
          % (pid, tier, agg["runs"], len(agg["il"]), len(agg["states"]), agg["st"].get("sim_s", 0) / 3600.0, nviol,
             wall_s, t_build))
    if agg["runs"] == 0 and code == 0:
        print("ERROR: nothing was run")
        code = 2
    return code


def replay(path):
    rp = json.load(open(path))
    built = B.build()
    scratch = tempfile.mkdtemp(prefix="simrun_", dir="/tmp")
    ws = []
    try:
        ws = start(scratch, built, 1)
        r = ws[0].job({"prop": rp["property"], "plan": rp["plan"]})
        r2 = ws[0].job({"prop": rp["property"], "plan": rp["plan"]})
    finally:
        for w in ws:
            w.close()
        shutil.rmtree(scratch, ignore_errors=True)
    for x in r.get("v", []):
        print("%s: %s" % (x["kind"], x["msg"]))
    print("event hash %s, second execution %s, recorded %s" % (r.get("h"), r2.get("h"), rp.get("hash")))
    if rp["kind"] in kinds(r):
        print("VIOLATION property=%s replay=%s" % (rp["property"], path))
        return 1
    print("not reproduced")
    if "err" in r:
        print(r["err"])
        return 2
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(check(sys.argv[1], sys.argv[2]))
