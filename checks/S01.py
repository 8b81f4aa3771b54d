import build, vf

KEYS = [0, 1, 3, 4, 7, 100, 65536, 1000000]


class Check(vf.Check):
    pid = "S01"
    harness = ("S01", build.ALL + ["h:S01.cc"])
    trace = "S01Trace"
    mc = [("S01MC", "S01MC", 2)]
    mc_thorough = [("S01MC", "S01MC_big", 6)]
    level_note = "The additive-table specification is checked exhaustively over small histories; the code is bound to it by replaying TLC behaviours and random histories (64-bit counts and addresses) and validating every recorded table. Assumes well-formed files."
    assumptions = ["counts and addresses are scaled: specification number n is n * unit (unit up to 2^33+1) and base + n (base up to 2^64 - 2^32) in the code",
                   "input files are well-formed or missing"]

    def conv(self, b):
        r = self.rng
        ops = [list(o) for o in b]
        names = sorted({o[2] for o in ops if o[0] == "Write"})
        ops += [["Read", f] for f in ("f", "g")]
        if names:
            ops.append(["Tool", r.choice(["f", "g", "h"]), [r.choice(names) for _ in range(r.randint(1, 3))]])
        return self.decorate({"ops": ops})

    def decorate(self, s):
        r = self.rng
        s["unit"] = str(r.choice([1, 1, 3, 2**31 + 1, 2**32, 2**33 + 1]))
        s["base"] = str(r.choice([0, 0, 1, 2**31 - 2, 2**32 - 3, 2**47, 2**64 - 2**32]))
        return s

    @property
    def gens(self):
        n = 150 if self.tier == "quick" else 3000
        return [("S01Gen", "S01Gen", n, 14, self.conv)]

    def scripts(self, r, tier):
        out = []
        for _ in range(250 if tier == "quick" else 6000):
            ops, written = [], set()
            for _ in range(r.randint(3, 16)):
                x = r.choice("xyz")
                k = r.random()
                n = r.choice([0, 1, 1, 2, 5, 70, 1000])
                if k < .2:
                    ops.append(["IncA", x, r.choice(KEYS), n])
                elif k < .4:
                    a, b = sorted([r.choice(KEYS[:6]), r.choice(KEYS[:6])])
                    ops.append(["IncR", x, a, b, n])
                elif k < .55:
                    ops.append(["IncB", x, r.choice(KEYS), r.choice(KEYS), n])
                elif k < .62:
                    ks = r.sample(KEYS, r.randint(0, 4))
                    ops.append(["SetA", x, [[q, r.randint(0, 9)] for q in ks]])
                elif k < .65:
                    ops.append(["Clear", x])
                elif k < .75:
                    ops.append(["Merge", x, r.choice("xyz")])
                elif k < .86:
                    f = r.choice("fgh")
                    written.add(f)
                    ops.append(["Write", x, f] + (["aux"] if r.random() < .3 else []))
                elif k < .95:
                    ops.append(["Append", x, r.choice("fgh")])
                elif k < .98 and written:
                    ops.append(["Tool", r.choice("fgh"), [r.choice(sorted(written)) for _ in range(r.randint(0, 4))]])
                    written.add(ops[-1][1])
                else:
                    ops.append(["Read", r.choice("fgh")])
            out.append(self.decorate({"ops": ops}))
        return out
