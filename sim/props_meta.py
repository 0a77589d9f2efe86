"""What the driver needs to know about a property without importing the
extension: budgets, level, evidence texts, and the (pure Python) shrinker."""
import sys
import types

REAL = ["libmacposts (all of /repo/src: nodes, links, routing, OD release, statistics, emission, I/O)",
        "pybind11 bindings (/repo/macposts/_ext)", "Python package (/repo/macposts)", "libstdc++, kernel file system"]
STUB = ["std::rand/std::srand (seeded policy in the shim)", "operator new/delete placement (simulated heap in the shim)",
        "open/read/write results when a fault is scheduled (shim)"]
ASSUME = ["inputs are legal in the sense of DESIGN.md section 3 (PQ origin connectors, at least one simulated vehicle per "
          "interval of link capacity)",
          "RAND_MAX and 0 are never drawn exactly"]


def meta(pid):
    import props
    P = props.PROPS[pid]
    P.real = getattr(P, "real", None) or REAL
    P.stub = getattr(P, "stub", None) or STUB
    P.assumptions = getattr(P, "assume", None) or ASSUME
    P.level = getattr(P, "level", "exploration")
    P.limits = {"cpu": P.cpu, "wall": 90} if getattr(P, "cpu", None) else {}
    return P
