"""The simulated world: the real extension under the preload shim.

Everything here runs in a forked child of a worker (see worker.py).
"""
import ctypes
import os
import sys

import numpy as np

import gen as G

FAULT = dict(MISSING=1, EACCES=2, EIO_READ=3, TRUNC=4, SHORT=5, ENOSPC=6, EIO_WRITE=7, SHORTW=8, EINTR=9,
             OPENW=10, EMFILE=11, CRASHW=12)
FAULT_NAME = {v: k for k, v in FAULT.items()}

STEP_CAP = 200000


class Trace:
    """One loading, as recorded by the observer."""

    def __init__(self, lib, i):
        def ints(k, w):
            n = ctypes.c_longlong()
            p = lib.sim_obs_ints(i, k, ctypes.byref(n))
            a = np.ctypeslib.as_array(p, (n.value,)).copy() if n.value else np.zeros(0, np.int32)
            return a.reshape(-1, w) if w else a
        self.births = ints(0, 11)
        self.moves = ints(1, 3)
        self.deaths = ints(2, 2)
        self.pathchg = ints(3, 3)
        raw = ints(4, 0)
        self.paths = []
        j = 0
        while j < len(raw):
            n = int(raw[j])
            self.paths.append((int(raw[j + 1]), [int(x) for x in raw[j + 2:j + 2 + n]]))
            j += n + 2
        self.links = [int(x) for x in ints(5, 0)]
        nl = len(self.links)
        self.sizes = ints(6, 0).reshape(-1, nl, 2) if nl else np.zeros((0, 0, 2), np.int32)
        self.counts = ints(7, 4)
        self._exits = ints(8, 0)
        self._pools = ints(11, 0)
        self._queues = ints(12, 0)
        self.legs = ints(10, 6)
        self.plans = {}
        raw, j = ints(9, 0).tolist(), 0
        while j < len(raw):
            n = raw[j + 3]
            x = raw[j + 4:j + 4 + 2 * n]
            self.plans[raw[j]] = dict(ev=bool(raw[j + 1]), road=bool(raw[j + 2]), seq=list(zip(x[::2], x[1::2])))
            j += 4 + 2 * n
        n = ctypes.c_longlong()
        p = lib.sim_obs_totals(i, ctypes.byref(n))
        self.totals = np.ctypeslib.as_array(p, (n.value,)).copy() if n.value else np.zeros(0)
        self.T = len(self.counts)
        self._veh = None

    def exits(self):
        """[tick][link] -> ids of the vehicles waiting at its exit (observe=3)."""
        out, raw, j = [], self._exits.tolist(), 0
        for _ in range(self.T):
            row = {}
            for l in self.links:
                n = raw[j]
                row[l] = raw[j + 1:j + 1 + n]
                j += n + 1
            out.append(row)
        return out

    def queues(self):
        """[tick][origin node] -> ids of the vehicles waiting there, in order (observe=9)."""
        out, raw, j = [], self._queues.tolist(), 0
        while j < len(raw):
            row = {}
            m = raw[j]
            j += 1
            for _ in range(m):
                n = raw[j + 1]
                row[raw[j]] = raw[j + 2:j + 2 + n]
                j += n + 2
            out.append(row)
        return out

    def pools(self, stations):
        """[tick][station] -> queues (lists of vehicles)"""
        out, raw, j = [], self._pools.tolist(), 0
        for _ in range(self.T if stations else 0):
            row = {}
            for _s in range(stations):
                k, m = raw[j], raw[j + 1]
                j += 2
                qs = []
                for _q in range(m):
                    n = raw[j]
                    qs.append(raw[j + 1:j + 1 + n])
                    j += n + 1
                row[k] = qs
            out.append(row)
        return out

    @property
    def veh(self):
        """id -> dict(cls, type, label, o, d, start, assign, birth, path, path0, trip[(tick, link)], death)"""
        if self._veh is None:
            v = {}
            for b in self.births.tolist():
                v[b[1]] = dict(id=b[1], birth=b[0], cls=b[2], type=b[3], label=b[4], o=b[5], d=b[6], start=b[7],
                               assign=b[8], path0=b[10], path=b[10], paths=[(b[0], b[10])],
                               trip=[(b[0], b[9])] if b[9] >= 0 else [], death=None)
            for t, i, l in self.moves.tolist():
                v[i]["trip"].append((t, l))
            for t, i, p in self.pathchg.tolist():
                v[i]["paths"].append((t, p))
                v[i]["path"] = p
            for t, i in self.deaths.tolist():
                v[i]["death"] = t
            self._veh = v
        return self._veh

    def flows(self, link, cls=None):
        """(inflow, outflow) arrays over ticks 0..T-1 in vehicles."""
        if not hasattr(self, "_fl"):
            fl = {}
            for v in self.veh.values():
                tr = v["trip"]
                for k, (t, l) in enumerate(tr):
                    if l < 0:
                        continue
                    a = fl.setdefault((l, v["cls"]), (np.zeros(self.T, int), np.zeros(self.T, int)))
                    a[0][t] += 1
                    out = tr[k + 1][0] if k + 1 < len(tr) else v["death"]
                    if out is not None:
                        a[1][out] += 1
            self._fl = fl
        z = np.zeros(self.T, int)
        i, o = z.copy(), z.copy()
        for (l, c), (a, b) in self._fl.items():
            if l == link and (cls is None or c == cls):
                i += a
                o += b
        return i, o

    def digest(self):
        import hashlib
        h = hashlib.sha256()
        for a in (self.births, self.moves, self.deaths, self.pathchg, self.sizes, self.counts):
            h.update(np.ascontiguousarray(a).tobytes())
            h.update(b"|")
        h.update(repr(self.paths).encode())
        h.update(self.totals.tobytes())
        return h.hexdigest()[:16]


class World:
    def __init__(self, shim, ext_so, ext_mod, macposts):
        self.mp = macposts
        self.ext = ext_mod
        L = ctypes.CDLL(shim)
        L.sim_begin.argtypes = [ctypes.c_int, ctypes.c_ulonglong, ctypes.c_int, ctypes.c_int, ctypes.c_ulonglong,
                                ctypes.c_int, ctypes.c_longlong]
        L.sim_stat.restype = ctypes.c_ulonglong
        L.sim_rand_level.restype = ctypes.c_double
        L.sim_rand_level.argtypes = [ctypes.c_ulonglong, ctypes.c_longlong]
        L.sim_alloc_idx.restype = ctypes.c_longlong
        L.sim_alloc_fail.argtypes = [ctypes.c_longlong]
        L.sim_corruption.restype = ctypes.c_char_p
        L.sim_fault.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int, ctypes.c_longlong]
        L.sim_heap_policy.argtypes = [ctypes.c_int, ctypes.c_ulonglong, ctypes.c_int]
        L.sim_entropy.argtypes = [ctypes.c_longlong, ctypes.c_longlong, ctypes.c_ulonglong, ctypes.c_int]
        self.L = L
        O = ctypes.CDLL(ext_so)
        O.sim_obs_ints.restype = ctypes.POINTER(ctypes.c_int32)
        O.sim_obs_ints.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.POINTER(ctypes.c_longlong)]
        O.sim_obs_totals.restype = ctypes.POINTER(ctypes.c_double)
        O.sim_obs_totals.argtypes = [ctypes.c_int, ctypes.POINTER(ctypes.c_longlong)]
        self.O = O
        self.begun = False

    # -- simulator control
    def begin(self, sim, heap_on=1, fail_at=-1, observe=1, cap=STEP_CAP):
        self.L.sim_begin(sim["pol"], sim["salt"], heap_on, sim["heap"], sim["hseed"], sim["fill"], fail_at)
        e = sim.get("ent", sim["salt"])
        self.entropy(e)
        self.O.sim_obs_reset(observe, cap)
        self.begun = True

    def entropy(self, e):
        """Wall clock, its pace, the entropy device and the process id."""
        self.L.sim_entropy(1500000000 + (e * 7919) % 400000000, 1 + (e * 31) % 50000000, e * 2654435761 + 1,
                           2 + e % 30000)

    def observe(self, on, cap=STEP_CAP):
        self.O.sim_obs_reset(on, cap)

    def end(self):
        """Stop simulating; returns a description of heap damage or None."""
        self.L.sim_end()
        self.begun = False
        if self.L.sim_stat(5):
            return self.L.sim_corruption().decode()
        return None

    def stats(self):
        s = self.L.sim_stat
        return dict(rand=int(s(0)), rhash="%x" % s(1), news=int(s(2)), live=int(s(3)), opens=int(s(6)))

    def traces(self):
        return [Trace(self.O, i) for i in range(self.O.sim_obs_count())]

    def has_observer(self):
        return True

    # -- programs
    def make(self, s, root):
        cls = self.mp.Mcdta if s["kind"] == "mcdta" else self.mp.Dta
        return cls.from_files(root)

    def load(self, s, root, tree=False, run=True, paths=None, cc=True, verbose=False):
        """The canonical program of the documentation: build, register,
        install, run.  Returns the instance."""
        self.mp.set_random_state(s["rng"])
        d = self.make(s, root)
        d.register_links(s["reg"]) if s["reg"] is not None else d.register_links()
        if paths is not None:
            d.register_paths(paths)
        if cc:
            d.install_cc()
        if tree:
            d.install_cc_tree()
        if run:
            d.run_whole(verbose)
        return d
