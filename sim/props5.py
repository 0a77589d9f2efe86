"""C24 link models, C25 junction models."""
import oracles2 as O2
from props import Base, prop


class Model(Base):
    observe = 3
    knobs = dict(pol=[6], td=0.35, td_rich=True, tight_conn=0.5, labels=0.1, toll=0.0)

    def extra(self, seed, tier):
        return dict(budget=[80, 400, 1200][seed % 3])

    def result(self, W, s, tr, v, **extra):
        r = Base.result(self, W, s, tr, v, **extra)
        r["st"].update(self.st)
        return r

    def execute(self, W, plan, root):
        self.st = {}
        return Base.execute(self, W, plan, root)


@prop
class C24(Model):
    id = "C24"
    knobs = dict(Model.knobs, odd=0.25, odd_low=True)

    def plan(self, seed, tier):
        p = Base.plan(self, seed, tier)
        s = p["s"]
        if s.get("low") and s["total"] <= 0:
            s["total"] = s["frq"] * s["maxi"] + 40      # such links may never drain
        return p

    def oracle(self, R, plan):
        return O2.link_models(R, self.st)[0]


@prop
class C25(Model):
    id = "C25"
    knobs = dict(Model.knobs, no=[1, 2, 3], n=[1, 2, 3, 4, 5], wide=0.06)

    def extra(self, seed, tier):
        k = Model.extra(self, seed, tier)
        k["routing"] = ["Biclass_Hybrid"] if self.kinds[seed % 2] == "mcdta" else ["Fixed", "Hybrid"]
        return k

    def plan(self, seed, tier):
        p = Base.plan(self, seed, tier)
        p["s"]["ad"] = [0, 0]
        p["s"]["tdad"] = None
        return p

    def oracle(self, R, plan):
        v, sup = O2.link_models(R)
        if v:
            return []          # decided by C24
        return O2.junctions(R, sup, self.st)
