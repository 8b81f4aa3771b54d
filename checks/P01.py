import profgen
from profgen import *


class Check(ProfCheck):
    pid = "P01"

    def one(self, r):
        pol = r.choice(["none", "none", "selected", "all"])
        b = B(r, r.sample(PLAIN, 4), r.choice(self.UNITS))
        b.targets = b.names if pol == "none" else b.names + r.sample(DOTTED, 3)
        for m in range(r.randint(1, 2)):
            b.profile(m, pol, samples=r.randint(1, 18), bad=r.choice([0, 0, .15]), strict=r.random() < .8)
            if r.random() < .3:
                b.op(op="call", m=m, name=r.choice(sorted(b.maps[m]["names"])), stack=[], to="a", n=1, strict=True)
            if r.random() < .3:
                b.src(m, r.choice(sorted(b.maps[m]["names"])), dup=r.choice([2, 3]))
            if r.random() < .3:
                b.op(op="alias", m=m, name="zz", alias="zzalias")
                b.sym(m, "zz")
                b.src(m, "zz")
            for nm in sorted(b.maps[m]["names"])[:2] + ["absent"]:
                b.op(op="first", m=m, name=nm)
            b.op(op="sum", m=m)
            b.op(op="names", m=m)
        return b.script()

    def finish(self, b, r):
        for m in (0, 1):
            for nm in sorted(b.maps[m]["names"]):
                b.op(op="first", m=m, name=nm)
            b.op(op="sum", m=m)
            b.op(op="names", m=m)
