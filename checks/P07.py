import profgen
from profgen import *


class Check(ProfCheck):
    pid = "P07"

    def one(self, r):
        names = r.sample(PLAIN, 4)
        kind = r.choice(["throttle", "trim", "ratio", "remove", "removere", "hybrid", "hybrid", "flat", "flat", "limit", "limit"])
        b = B(r, names, 1 if kind == "ratio" else r.choice(self.UNITS))
        tops = r.sample(names, r.randint(1, 3))
        few = dict(lines=[0, 1, 2, 5], discs=[0, 0, 1])
        if kind == "limit":
            # no recursion in a chain of inlined calls
            inl = ["i0", "i1", "i2", "i3", "i4", "i5"]
            b.names = names + inl
            b.new(0, "none")
            for f in tops:
                b.sym(0, f)
            for _ in range(r.randint(1, 16)):
                f = r.choice(tops)
                d = r.choice([0, 1, 2, 3, 4])
                ch = r.sample(inl[:d + 1], d)
                st = [b.frame(x, True, 0, **few) for x in ch + [f]]
                b.op(op="src", m=0, name=f, stack=st, n=r.choice([0, 1, 5, 20, 100]), inst=1, dup=1, strict=True)
                if r.random() < .3:
                    b.call(0, f, st, to=r.choice(inl + names))
            if r.random() < .5:
                b.sym(0, "i1")
                b.src(0, "i1", depth=0, **few)
            b.op(op="limit", m=0, max=r.choice([-1, 0, 1, 1, 2, 2, 3]))
            b.op(op="sum", m=0)
            return b.script()
        b.profile(0, "none", funcs=tops, samples=r.randint(1, 20), calls=.4, **few)
        b.src(0, tops[0], depth=0)
        if kind == "throttle":
            if r.random() < .3:
                b.op(op="alias", m=0, name="zy", alias="zyalias")
                b.sym(0, "zy")
                b.src(0, "zy", depth=2)
            b.op(op="throttle", m=0, max=r.choice([0, 1, 1, 2, 3]))
        elif kind == "trim":
            b.op(op="trim", m=0, max=r.choice([0, 1, 1, 2, 3]))
        elif kind == "ratio":
            b.op(op="ratio", m=0, a=r.choice([0, 1, 3, 5]), b=r.choice([1, 2, 4, 8]))
        elif kind == "remove":
            b.op(op="remove", m=0, name=r.choice(names))
        elif kind == "removere":
            import re
            rx = r.choice(["a", ".*", "[ab]", "_ZN.*", "z", "zz|main", "nothing"])
            b.op(op="removere", m=0, re=rx, sel=[n for n in sorted(b.maps[0]["names"]) if re.fullmatch(rx, n)])
        else:
            b.new(1, "none")
            if r.random() < .3:
                b.src(1, r.choice(tops), depth=r.choice([0, 1]), **few)
            if kind == "hybrid":
                b.op(op="hybrid", m=1, **{"from": 0}, n=r.choice([0, 1, 5, 50, 100000]))
            else:
                b.op(op="flat", m=1, **{"from": 0}, sel=r.random() < .5, n=r.choice([0, 1, 10, 100, 100000]))
            b.op(op="sum", m=1)
            return b.script()
        b.op(op="sum", m=0)
        b.op(op="conv", m=0)
        return b.script()

    rename = {(f, d): f + str(d) for f in "fgh" for d in (1, 2, 3)}

    def finish(self, b, r):
        b.op(op="limit", m=0, max=r.choice([1, 2]))
        k = r.choice(["throttle", "trim", "hybrid", "flat"])
        if k in ("throttle", "trim"):
            b.op(op=k, m=1, max=r.choice([0, 1]))
        else:
            b.new(2, "none")
            if k == "hybrid":
                b.op(op="hybrid", m=2, **{"from": 1}, n=r.choice([0, 1, 5]))
            else:
                b.op(op="flat", m=2, **{"from": 1}, sel=r.random() < .5, n=r.choice([0, 1, 5]))
