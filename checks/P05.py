import profgen
from profgen import *


class Check(ProfCheck):
    pid = "P05"

    def one(self, r):
        pool = r.sample(DOTTED, 5) + r.sample(PLAIN, 2)
        b = B(r, pool, r.choice(self.UNITS))
        pol = r.choice(["none", "all", "selected", "selected"])
        b.profile(0, pol, funcs=r.sample(pool, r.randint(2, 6)), samples=r.randint(0, 16), calls=.4)
        if r.random() < .4:
            nm = r.choice(pool)
            if nm not in b.maps[0]["names"]:
                al = r.choice([x for x in DOTTED if x not in pool] + ["al.cold"])
                b.op(op="alias", m=0, name=nm, alias=al)
                b.sym(0, nm)
                b.src(0, nm)
        for nm in r.sample(DOTTED + D4 + PLAIN, 4):
            b.more.add(nm)
            b.op(op="orig", m=0, name=nm)
        b.op(op="elide", m=0)
        b.op(op="sum", m=0)
        b.src(0, r.choice(sorted({base(n, pol) for n in b.maps[0]["names"]}))) if r.random() < .4 else None
        b.op(op="elide", m=0)
        b.op(op="conv", m=0)
        return b.script()

    pols = ["selected"]
    rename = {"f": "a", "g": "a.cold", "h": "a.llvm.7.cold"}

    def finish(self, b, r):
        for m in (0, 1):
            b.op(op="elide", m=m)
            b.op(op="sum", m=m)
