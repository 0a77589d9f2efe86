"""Worker: preloaded with the shim, imports the extension once, forks one child
per simulated run.  Protocol: one JSON job per stdin line, one JSON answer per
line on fd 3 (stdout is not ours: the code under test prints to it)."""
import json
import os
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

SCRATCH = os.environ.get("SIM_SCRATCH", "/tmp")


def child(job, root, wfd):
    import props
    # output of the code under test goes nowhere
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(dn, 1)
    if not os.environ.get("SIM_DEBUG"):
        os.dup2(dn, 2)
    resource.setrlimit(resource.RLIMIT_CPU, (job.get("cpu", 40), job.get("cpu", 40) + 5))
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 48 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    P = props.PROPS[job["prop"]]
    plan = job.get("plan")
    try:
        if plan is None:
            plan = P.plan(job["seed"], job.get("tier", "quick"))
        if job.get("op") == "plan":
            res = {"plan": plan}
        else:
            W = props.world()
            try:
                res = P.execute(W, plan, root)
            except (MemoryError, OSError, KeyboardInterrupt, SystemExit):
                raise
            except Exception as e:
                # the library answered with something no oracle has a reading for (on the tree as it is, that never happens)
                tb = traceback.extract_tb(e.__traceback__)[-1]
                res = {"v": [{"kind": "unjudged", "msg": "the answers of the library could not be interpreted: %s: %s (%s:%s)"
                              % (type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.name)}]}
            if job.get("want_plan"):
                res["plan"] = plan
    except BaseException:
        res = {"err": traceback.format_exc()[-3000:]}
    data = json.dumps(res).encode()
    while data:
        n = os.write(wfd, data)
        data = data[n:]
    os._exit(0)


def run(job):
    root = tempfile.mkdtemp(prefix="sim_", dir=SCRATCH)
    r, w = os.pipe()
    t0 = time.time()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            child(job, root, w)
        finally:
            os._exit(99)
    os.close(w)
    limit = t0 + job.get("wall", 90)
    buf = []
    timed_out = False
    while True:
        left = limit - time.time()
        if left <= 0:
            timed_out = True
            break
        rl, _, _ = select.select([r], [], [], min(left, 1.0))
        if rl:
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf.append(d)
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    shutil.rmtree(root, ignore_errors=True)
    if timed_out:
        return {"v": [{"kind": "hang", "msg": "no result within %d s of wall time" % job.get("wall", 90)}]}
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        if sig in (signal.SIGXCPU,):
            return {"v": [{"kind": "hang", "msg": "no result within %d s of CPU time" % job.get("cpu", 40)}]}
        return {"v": [{"kind": "crash", "msg": "killed by signal %d (%s)" % (sig, signal.Signals(sig).name)}]}
    if os.WEXITSTATUS(st) != 0 or not buf:
        return {"v": [{"kind": "crash", "msg": "process exited with status %d" % os.WEXITSTATUS(st)}]}
    res = json.loads(b"".join(buf))
    return res


def main():
    out = os.fdopen(3, "w")
    import props
    props.world()
    out.write(json.dumps({"ready": 1}) + "\n")
    out.flush()
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        job = json.loads(line)
        try:
            res = run(job)
        except Exception:
            res = {"err": traceback.format_exc()[-3000:]}
        res["id"] = job.get("id")
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
