"""Build the simulated extension and the preload shim from /repo's working tree.

Objects are cached by content hash in /verif/build (git-ignored); a missing
cache only costs time.
"""
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
PY = "/opt/macposts-venv/bin/python"
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))

# These translation units are compiled (the extension links them) but the
# checks never execute them; compile them cheaply.
COLD = {"multimodal.cpp", "mmdta.cpp", "realtime_dta.cpp", "delivery_traffic.cpp",
        "ev_traffic.cpp"}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd, log):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))


def build(verbose=False):
    """Return dict(ext=<dir containing _macposts_ext>, shim=<path>)."""
    src = os.path.join(REPO, "src")
    ext = os.path.join(REPO, "macposts", "_ext")
    py_inc = subprocess.run([PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"],
                            capture_output=True, text=True, check=True).stdout.strip()
    eigen = None
    for c in (os.path.join(REPO, "lib", "eigen"), "/usr/include/eigen3"):
        if os.path.isdir(os.path.join(c, "Eigen")):
            eigen = c
            break
    pyb = None
    for c in (os.path.join(REPO, "lib", "pybind11", "include"), "/usr/include"):
        if os.path.isdir(os.path.join(c, "pybind11")):
            pyb = c
            break
    base = ["g++", "-std=c++11", "-fPIC", "-fvisibility=hidden", "-DNDEBUG", "-DMACPOSTS_SIM", "-w",
            "-I" + src, "-I" + (eigen or "/usr/include/eigen3"), "-I" + py_inc]
    if pyb and pyb != "/usr/include":
        base.append("-I" + pyb)
    hdrs = []
    for d in (src, ext):
        for root, _, fs in os.walk(d):
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".hh", ".ipp", ".tpp", ".inc")):
                    hdrs.append(os.path.join(root, f))
    hh = sha(*[read(h) for h in sorted(hdrs)], *[os.path.relpath(h, REPO) for h in sorted(hdrs)])
    tus = []
    for d in (src, ext):
        for f in sorted(os.listdir(d)):
            if f.endswith((".cpp", ".cc", ".cxx")):
                tus.append(os.path.join(d, f))
    tus.append(os.path.join(VERIF, "sim", "observer.cpp"))
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    jobs = []
    objs = []
    for tu in tus:
        opt = ["-O0"] if os.path.basename(tu) in COLD else ["-O1"]
        cmd = base + opt
        o = os.path.join(BUILD, "obj", os.path.basename(tu) + "." + sha(read(tu), hh, " ".join(cmd)) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((os.path.getsize(tu), cmd + ["-c", tu, "-o", o + ".%d.tmp" % os.getpid()], o))
    jobs.sort(key=lambda j: -j[0])

    def one(j):
        _, cmd, o = j
        run(cmd, verbose)
        os.replace(cmd[-1], o)

    with ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(one, jobs))
    shim_src = os.path.join(VERIF, "sim", "shim.cpp")
    shim = os.path.join(BUILD, "libsimshim.%s.so" % sha(read(shim_src)))
    if not os.path.exists(shim):
        run(["g++", "-O2", "-std=c++14", "-fPIC", "-shared", "-w", "-o", shim + ".tmp", shim_src, "-ldl"], verbose)
        os.replace(shim + ".tmp", shim)
    out = os.path.join(BUILD, "ext." + sha(*sorted(objs)))
    so = os.path.join(out, "_macposts_ext.so")
    if not os.path.exists(so):
        os.makedirs(out, exist_ok=True)
        run(["g++", "-shared", "-o", so + ".tmp"] + objs, verbose)
        os.replace(so + ".tmp", so)
    prune()
    return {"ext": out, "shim": shim, "tus": len(tus), "compiled": len(jobs)}


def prune(limit=1500 << 20):
    """Keep the object cache bounded."""
    d = os.path.join(BUILD, "obj")
    fs = [os.path.join(d, f) for f in os.listdir(d)]
    fs = sorted(((os.path.getmtime(f), os.path.getsize(f), f) for f in fs if os.path.isfile(f)), reverse=True)
    tot = 0
    for m, s, f in fs:
        tot += s
        if tot > limit:
            os.unlink(f)
    es = sorted((os.path.join(BUILD, e) for e in os.listdir(BUILD) if e.startswith("ext.")),
                key=os.path.getmtime, reverse=True)
    for e in es[12:]:
        shutil.rmtree(e, ignore_errors=True)


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(True), round(time.time() - t, 1), "s")
