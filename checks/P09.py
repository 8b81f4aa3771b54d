import profgen
from profgen import *


class Check(ProfCheck):
    pid = "P09"

    def one(self, r):
        if r.random() < .3:      # sanity thresholds
            b = B(r, ["v%d" % i for i in range(14)], 1)
            b.new(0, "none")
            k = r.choice([8, 9, 10, 10, 12])
            for i in range(k):
                b.sym(0, "v%d" % i)
            for _ in range(r.randint(1, 8)):
                st = b.src(0, "v%d" % r.randint(0, k - 1), depth=r.choice([0, 0, 1]), n=r.choice([0, 10, 400000, 600000, 999999, 1000000]),
                           strict=False, lines=[0, 0, 1, 2], discs=[0])
                if r.random() < .5:
                    b.call(0, st[-1]["fn"], st, strict=False, to="v0")
            b.op(op="valid", m=0)
            return b.script()
        b = B(r, r.sample(PLAIN, 4), r.choice(self.UNITS))
        for m in (0, 1):
            b.new(m, "none")
            left = r.choice([0, 1, 20, 100])
            for f in r.sample(b.names, r.randint(0, 4)):
                b.sym(m, f)
                n = r.randint(0, left)
                left -= n
                st = b.stack(f, r.choice([0, 1]), True)
                if n:
                    b.op(op="src", m=m, name=f, stack=st, n=n, inst=1, dup=1, strict=True)
        if r.random() < .3:
            b.op(op="overlap", m=0, **{"with": 0})
        b.op(op="overlap", m=0, **{"with": 1})
        b.op(op="overlap", m=1, **{"with": 0})
        return b.script()

    def finish(self, b, r):
        b.op(op="overlap", m=0, **{"with": 1})
        b.op(op="overlap", m=1, **{"with": 0})
        b.op(op="overlap", m=0, **{"with": 0})
