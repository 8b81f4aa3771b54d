import symgen
from symgen import *


class Check(ProfCheck):
    pid = "P10"
    gens = []
    gens_thorough = []
    level_note = ("TLC checks on every small binary and run that the computed profile conserves and bounds the sampled counts; "
                  "random ELF binaries, inline structures and runs (branch, address and cache-miss mode) are put through the real "
                  "Profile::ComputeProfile with a stand-in symboliser, and the profile it leaves is judged by the same specification.")

    @property
    def mc(self):
        return [("SymMC", "P10MC", 4)]

    @property
    def mc_thorough(self):
        return [("SymMC", "P10MC_big", 6)]

    def one(self, r):
        mode = r.choice(["lbr", "lbr", "lbr", "addr", "llc"])
        unit = 1 if mode == "llc" else r.choice([1, 1, 1, 7 * 16, 1 << 31])
        pool = r.sample(["a", "b", "main", "zz", "a.cold", "b.__part.1", "a.llvm.12", "main.llvm.7.cold", "zz.cold", "c", "d.cold"], 8)
        b = B(r, pool, unit)
        pol = r.choice(["selected", "selected", "all", "none"])
        enc = r.random() < .3
        x = symgen.binary(r, pool, nf=r.randint(1, 4), odd=r.choice([0, .4]), dups=mode != "llc" and r.random() < .4, big=6)
        symgen.newbin(b, 0, x, pol)
        q = symgen.run(r, x, mode, cap=r.choice([5, 20, 300]))
        frac = r.choice([0, 0, 0, 1, 8]) if unit == 1 else 0
        tot = sum(c for _, c in q["ad"]) + sum(c for _, c in q["rg"])
        b.op(op="compute", m=0, mode=mode, enc=enc, src=symgen.stacks(r, b, x, ["a", "b", "zz", "inl1", "inl2"], pol, enc), frac=frac,
             floor=10 if unit == 1 else 0, tot=tot, check=r.random() < .1, **q)
        if unit == 1:
            b.op(op="getws", m=0)
        return b.script()
