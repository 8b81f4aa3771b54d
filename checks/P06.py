import profgen
from profgen import *


class Check(ProfCheck):
    pid = "P06"

    def one(self, r):
        n = r.randint(1, 7)
        names = ["n%d" % i for i in range(n)]
        unit = r.choice([1, 1, 1 << 20, 1 << 30])
        b = B(r, names, unit)
        b.new(0, "none")
        dens = r.random()
        kind = r.choice(["any", "any", "dag", "chain", "two"])
        heads = {}
        for i, f in enumerate(names):
            b.sym(0, f)
            # entries: powers of two that divide every count below
            heads[f] = r.choice([0, 1, 2, 4] if unit == 1 else [1, 2, 4])
            b.op(op="entry", m=0, name=f, h=heads[f], n=64 * r.choice([0, 1, 2]))
        for i, f in enumerate(names):
            for _ in range(r.randint(0, 2 + int(3 * dens))):
                if kind == "dag":
                    to = names[r.randint(i, n - 1)] if i < n - 1 else "leaf"
                    to = to if to != f else "leaf"
                elif kind == "chain":
                    to = names[(i + 1) % n] if r.random() < .8 else r.choice(names)
                elif kind == "two":
                    h = n // 2
                    to = names[r.randint(0, h)] if i <= h and r.random() < .8 else names[r.randint(h, n - 1)]
                else:
                    to = r.choice(names + ["absent"])
                st = b.stack(f, r.choice([0, 0, 0, 1, 2]), True, callees=["inl1", "inl2"], lines=[1, 2, 3, 5])
                if r.random() < .4:
                    b.op(op="src", m=0, name=f, stack=st, n=64 * r.choice([1, 2]), inst=1, dup=1, strict=True)
                # whole multiples of the entries keep the result exact
                b.call(0, f, st, to=to, n=max(1, heads.get(to, 1)) * r.choice([1, 1, 2]))
        b.op(op="incl", m=0)
        if r.random() < .4:      # more samples, and once more
            f = r.choice(names)
            b.src(0, f, n=64, strict=True, inst=1, callees=["inl1", "inl2"], lines=[1, 2, 3, 5])
            b.op(op="incl", m=0)
        elif r.random() < .3:
            b.op(op="incl", m=0)
        return b.script()

    unit_tlc = [1]
    entry_counts = {5: 4}

    def finish(self, b, r):
        b.op(op="incl", m=0)
        b.op(op="incl", m=1)
