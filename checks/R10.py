import symgen
from symgen import *


class Check(ProfCheck):
    pid = "R10"
    gens = []
    gens_thorough = []
    level_note = ("TLC checks the cut-off, monotonicity and the disjointness of profile and list on every small multiset of sizes and "
                  "coverage; random size lists (up to 2^24-fold scale) and random binaries with profiles are run through the "
                  "real fillProfileSymbolList / collectNamesForProfSymList and judged by the same specification.")

    @property
    def mc(self):
        return [("SymMC", "R10MC", 3)]

    @property
    def mc_thorough(self):
        return [("SymMC", "R10MC_big", 6)]

    def ratio(self, r):
        b = r.choice([1, 2, 4, 8, 64, 1024])
        return dict(a=r.choice([0, b, b, r.randint(0, b), r.randint(b // 2, b)]), b=b)

    def one(self, r):
        b = B(r, r.sample(PLAIN + DOTTED, r.randint(4, 12)), r.choice([1, 1, 1 << 10, 1 << 24]))
        if r.random() < .5:
            b.new(0, r.choice(["none", "selected", "all"]))
            for _ in range(6):
                q = [{"nm": r.choice(b.names), "z": r.choice([0, 1, 2, 3, 3, 10, 50, 1000]) if r.random() < .7 else r.randint(0, 300)}
                     for _ in range(r.choice([0, 1, 2, 4, 9]))]
                b.op(op="fill", m=0, q=q, exact=b.unit > 1, **self.ratio(r))
            return b.script()
        b.unit = 1
        x = symgen.binary(r, b.names, nf=r.randint(1, min(7, len(b.names))), odd=r.choice([0, .4, .8]), big=12, mode="exec")
        symgen.newbin(b, 0, x, r.choice(["none", "selected", "selected", "all"]))
        for _ in range(3):
            b.op(op="symlist", m=0, **self.ratio(r))
            for _ in range(r.randint(0, 3)):
                f = base(r.choice(x.funcs)[2], b.maps[0]["pol"]) if r.random() < .7 else r.choice(b.names)
                st = b.src(0, f, n=r.choice([0, 3]))
                if st and r.random() < .5:
                    b.call(0, f, st)
        b.op(op="names", m=0)
        return b.script()
