import profgen
from profgen import *


class Check(ProfCheck):
    pid = "P02"

    def one(self, r):
        b = B(r, r.sample(PLAIN + D4 + DOTTED[:4], 4), r.choice(self.UNITS))
        special = r.random() < .35
        if special:
            b.names = r.sample(SPECIAL, 4)
            b.unit = 1
        files = []
        llvm = special or r.random() < .5
        ver = r.choice([1, 2, 2, 3])
        pol = r.choice(["none", "none", "selected", "all"])
        for m in range(r.choice([2, 2, 3])):
            b.profile(m, samples=r.randint(0, 10), entries=.7, lines=LINES[:6] + [100, 65535], thr=r.choice([None, None, 0, 3]) if b.unit == 1 else None)
            if r.random() < .3:
                nm = r.choice(b.names)
                b.sym(m, nm)
                b.op(op="entry", m=m, name=nm, h=r.choice([0, 2]), n=r.choice([1, 9]))
            f = b.file()
            if llvm:
                b.op(op="writellvm", m=m, file=f, fmt=r.choice(["text", "binary", "ext"]))
            else:
                if r.random() < .3:
                    b.op(op="upws", m=m, i=r.randint(0, 127), num=r.choice([5, 10, 37]), n=r.choice([1, 4]))
                b.times(m)
                b.op(op="writegcc", m=m, file=f, ver=ver)
            files.append(f)
        orders = [files, files[::-1], files + [r.choice(files)]]
        for i, o in enumerate(orders[:r.choice([1, 2, 3])]):
            m = 4 + i
            b.new(m, pol)
            if r.random() < .2:
                b.src(m, r.choice(b.names), strict=False, lines=LINES[:6])
            for f in o:
                if llvm:
                    b.op(op="readllvm", m=m, file=f, special=special)
                else:
                    b.op(op="readgcc", m=m, file=f, force=r.random() < .8, gap=gap(b.unit))
            if not llvm and r.random() < .5:
                b.op(op="getws", m=m)
            b.op(op="times", m=m)
        return b.script()

    def finish(self, b, r):
        llvm = r.random() < .5
        for m in (0, 1):
            b.op(op="writellvm", m=m, file="p%d" % m, fmt=r.choice(["text", "binary", "ext"])) if llvm else \
                b.op(op="writegcc", m=m, file="p%d" % m, ver=2)
        for m, o in ((2, "01"), (3, "10"), (4, "011")):
            b.new(m, "none")
            for f in o:
                b.op(op="readllvm", m=m, file="p" + f, special=False) if llvm else \
                    b.op(op="readgcc", m=m, file="p" + f, force=True, gap=1)
