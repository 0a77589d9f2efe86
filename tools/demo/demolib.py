"""Helpers for the demonstrations: small networks written to a scratch folder."""
import os
import shutil
import tempfile

import numpy as np

import net


def L(id, a, b, type="PQ", len=None, ffs=None, cap=None, rhoj=None, lanes=1, **kw):
    if type == "PQ" and cap is None:
        d = dict(type="PQ", len=1, ffs=99999, cap=99999, rhoj=99999, lanes=1, ffs_t=99999, cap_t=99999, rhoj_t=99999, conv=1)
    else:
        d = dict(type=type, len=0.5, ffs=40, cap=1800, rhoj=200, lanes=1)
        d.update(ffs_t=30, cap_t=1200, rhoj_t=100, conv=2)
    for k, v in dict(len=len, ffs=ffs, cap=cap, rhoj=rhoj).items():
        if v is not None:
            d[k] = v
    d.update(lanes=lanes, id=id, a=a, b=b)
    d.update(kw)
    return d


def scen(kind, nodes, links, demand, **kw):
    """nodes: {id: type}; demand: [(onode, dnode, cars, trucks)]"""
    on = [n for n, t in nodes.items() if t == "DMOND"]
    dn = [n for n, t in nodes.items() if t == "DMDND"]
    s = dict(seed=0, kind=kind, ut=5, frq=12, maxi=max(len(d[2]) for d in demand), scalar=1, start=0, split=0, total=-1,
             nodes=[[n, t, kw.pop("nconv", 1)] for n, t in nodes.items()], links=links,
             orig=[[i + 1, n] for i, n in enumerate(on)], dest=[[i + 1, n] for i, n in enumerate(dn)],
             demand=[[on.index(o) + 1, dn.index(d) + 1, list(c), list(t)] for o, d, c, t in demand],
             routing="Biclass_Hybrid" if kind == "mcdta" else "Fixed", ad=[0, 0], frq_ad=12, paths=[], labels=None,
             tdad=None, emis=[], rec={"n": 1, "vol": 1, "vl": 0, "vr": 0, "tt": 1, "tl": 0, "tr": 0}, td=None, reg=None)
    s.update(kw)
    s.setdefault("frq_fx", s["frq"])
    return s


class Net:
    def __init__(self, s):
        self.s = s
        self.root = tempfile.mkdtemp(prefix="demo_")
        net.write(s, self.root)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.root, ignore_errors=True)

    def make(self, rng=1, reg=None):
        import macposts
        macposts.set_random_state(rng)
        cls = macposts.Mcdta if self.s["kind"] == "mcdta" else macposts.Dta
        d = cls.from_files(self.root)
        d.register_links(reg) if reg is not None else d.register_links()
        return d

    def run(self, rng=1, reg=None, tree=False, paths=None):
        d = self.make(rng, reg)
        if paths is not None:
            d.register_paths(paths)
        d.install_cc()
        if tree:
            d.install_cc_tree()
        d.run_whole(False)
        return d


def quiet():
    dn = os.open(os.devnull, os.O_WRONLY)
    keep = os.dup(1)
    os.dup2(dn, 1)
    return keep


def verdict(bad):
    if bad:
        import sys
        sys.stderr.write("BROKEN: %s\n" % bad)
        sys.exit(1)
    print("ok")
