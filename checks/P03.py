import profgen
from profgen import *


class Check(ProfCheck):
    pid = "P03"

    def one(self, r):
        b = B(r, r.sample(PLAIN + D4 + D4 + DOTTED, 4), r.choice(self.UNITS))
        ver = r.choice([1, 1, 2, 3, 0x3430372a])
        b.profile(0, samples=r.randint(0, 14), calls=.4, thr=r.choice([None, None, 0, 5]) if b.unit == 1 else None,
                  bad=r.choice([0, .1]))
        if r.random() < .3:
            b.op(op="alias", m=0, name="zz", alias="zzalias")
            b.sym(0, "zz")
            b.src(0, "zz")
        if r.random() < .4:
            for _ in range(3):
                b.op(op="upws", m=0, i=r.randint(0, 127), num=r.choice([0, 5, 10, 37, 1000]), n=r.choice([1, 4]))
        b.times(0)
        b.op(op="writegcc", m=0, file="p", ver=ver)
        b.new(1, r.choice(["none", "none", "selected"]))
        b.op(op="readgcc", m=1, file="p", force=r.random() < .5, gap=gap(b.unit))
        b.op(op="getws", m=1)
        b.op(op="times", m=1)
        if r.random() < .4:      # and once more
            b.op(op="writegcc", m=1, file="q", ver=ver)
            b.new(2, "none")
            b.op(op="readgcc", m=2, file="q", force=False, gap=gap(b.unit))
            b.op(op="sum", m=2)
        return b.script()

    def finish(self, b, r):
        ver = r.choice([1, 2, 3])
        for m in (0, 1):
            b.op(op="writegcc", m=m, file="p%d" % m, ver=ver)
            b.new(2 + m, "none")
            b.op(op="readgcc", m=2 + m, file="p%d" % m, force=False, gap=gap(b.unit))
