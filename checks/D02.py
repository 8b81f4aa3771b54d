import symgen
from symgen import *


class Check(ProfCheck):
    pid = "D02"
    gens = []
    gens_thorough = []
    level_note = ("TLC checks the symbol table (Sym.tla) on every small binary: who owns an address, which name is kept, "
                  "that offset and address conversions invert each other. Random ELF binaries with segments at odd offsets, gaps, "
                  "zero-sized and nested symbols, aliases and suffixes are written by the check and read through the real symbol "
                  "map; every answer is judged by the same specification.")

    @property
    def mc(self):
        return [("SymMC", "D02MC", 3)]

    @property
    def mc_thorough(self):
        return [("SymMC", "D02MC_big", 6)]

    def one(self, r):
        b = B(r, PLAIN + ["ab", "cc", "dd"] + DOTTED[:6])
        x = symgen.binary(r, b.names, nf=r.randint(1, 7), odd=r.choice([0, .4, .8]), dups=r.random() < .2)
        symgen.newbin(b, 0, x, r.choice(["none", "selected"]))
        hi = max(s[1] + s[2] for s in x.segs)
        lo = x.segs[0][1]
        vs = sorted({v for a, z, _ in x.funcs for v in (a - 1, a, a + z // 2, a + z - 1, a + z) if v >= 0} |
                    {r.randint(0, hi + 3) for _ in range(8)})
        b.op(op="at", m=0, **{"as": vs})
        ins = [v for v in vs if v >= lo]
        b.op(op="offs", m=0, vs=ins)
        os = sorted({symgen.offset(x, v) for v in ins})
        b.op(op="vaddr", m=0, os=os)
        for k in range(2):
            b.op(op="sampled", m=0, os=r.sample(os, min(len(os), r.randint(0, 4))))
            for _ in range(r.randint(0, 2)):
                b.src(0, r.choice(x.funcs)[2], n=r.choice([0, 3]))
        return b.script()
