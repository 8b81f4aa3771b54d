import profgen
from profgen import *


class Check(ProfCheck):
    pid = "P04"

    def one(self, r):
        b = B(r, r.sample(PLAIN + D4[:2] + DOTTED, 4), r.choice(self.UNITS))
        b.profile(0, samples=r.randint(0, 16), calls=.4, thr=r.choice([None, None, 0, 5, 200]) if b.unit == 1 else None,
                  bad=r.choice([0, .1]))
        if r.random() < .3:
            b.op(op="alias", m=0, name="zz", alias="zzalias")
            b.sym(0, "zz")
            b.src(0, "zz")
        b.op(op="conv", m=0)
        for i, fmt in enumerate(r.sample(["text", "binary", "ext"], 2)):
            b.op(op="writellvm", m=0, file="p%d" % i, fmt=fmt)
            b.new(1 + i, r.choice(["none", "selected"]))
            b.op(op="readllvm", m=1 + i, file="p%d" % i, special=False)
        b.op(op="conv", m=1)
        return b.script()

    def finish(self, b, r):
        for m in (0, 1):
            b.op(op="conv", m=m)
            b.op(op="writellvm", m=m, file="p%d" % m, fmt=r.choice(["text", "binary", "ext"]))
            b.new(2 + m, "none")
            b.op(op="readllvm", m=2 + m, file="p%d" % m, special=False)
