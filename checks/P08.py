import profgen
from profgen import *


class Check(ProfCheck):
    pid = "P08"

    def one(self, r):
        den = r.choice([1, 1, 129])
        b = B(r, r.sample(PLAIN + DOTTED[:5], 5), 1 if den == 1 else 129 << r.choice([0, 10, 35]))
        pol = r.choice(["none", "selected"])
        small = r.random() < .6
        b.new(0, pol)
        fs = r.sample(b.names, r.randint(1, 4))
        tot = 0
        for f in fs:
            b.sym(0, f)
            if r.random() < .6:
                b.op(op="entry", m=0, name=f, h=r.choice([0, 1, 7, 300]), n=0)
        many = r.random() < .06
        if many:
            b.op(op="many", m=0, name=r.choice(fs), k=r.choice([255, 256, 257, 300]), n=r.choice([1, 2, 5]))
            tot += b.ops[-1]["k"] * b.ops[-1]["n"]
        for _ in range(r.randint(0, 14)):
            n = r.choice([0, 1, 1, 2, 5, 9]) if small else r.choice([1, 10, 50, 150])
            i = r.choice([0, 1, 1, 2, 5, 40])
            if tot + n * max(i, 1) > 1900:
                continue
            tot += n * max(i, 1)
            b.src(0, r.choice(fs), strict=False, n=n, inst=i)
        if r.random() < .5:
            b.op(op="remove", m=0, name=r.choice(fs))
        if r.random() < .5:
            b.op(op="elide", m=0)
        b.op(op="ws", m=0, den=den)
        if r.random() < .3:
            for _ in range(4):
                b.op(op="upws", m=0, i=r.randint(0, 127), num=r.choice([0, 1, 30]), n=r.choice([1, 2]))
            b.op(op="getws", m=0)
        if r.random() < .3 and b.unit == 1:
            b.op(op="calcthr", m=0, a=r.choice([0, 1, 8, 63]), sum=r.random() < .6, n=r.choice([0, 5, 640, 6401, 100000]))
        elif r.random() < .4:
            b.op(op="thr", m=0, n=r.choice([0, 1, 5, 20]))
        b.op(op="emits", m=0, ns=[0, 1, 5, 6, 10, 11, 12, 100])
        cuts = sorted(r.sample([0, 1, 10, 100, 200, 333, 500, 900, 990, 999], r.randint(1, 6)))
        b.op(op="summary", m=0, cuts=cuts, gap=gap(b.unit))
        return b.script()

    unit_tlc = [1, 129, 129 << 20]

    def finish(self, b, r):
        for m in (0, 1):
            b.op(op="ws", m=m, den=1 if b.unit == 1 else 129)
            b.op(op="summary", m=m, cuts=[10, 250, 500, 990], gap=gap(b.unit))
