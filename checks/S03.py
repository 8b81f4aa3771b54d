import build, elfgen, os, struct, vf

OPS = {"n": 0xd503201f, "a": 0x8b010000, "b": 0x14000002, "c": 0x54000040, "z": 0xb4000040, "r": 0xd65f03c0,
       "l": 0x94000004, "i": 0xd61f0000, "?": 0xffffffff}
BRANCH = "bczrli?"


class Check(vf.Check):
    pid = "S03"
    harness = ("S03", build.ALL + ["h:S03.cc"])
    trace = "S03Trace"
    mc = [("S03MC", "S03MC", 3)]
    mc_thorough = [("S03MC", "S03MC_big", 7)]
    level_note = ("Exactness of the flow rule is model-checked against a program whose every branch is sampled (all branch layouts up to "
                  "the bound); the converter and both SPE readers are driven with TLC-generated and random samples, including generated "
                  "AArch64 binaries that are disassembled, and their tables validated by TLC. The SPE packet decoder is a stand-in.")
    assumptions = ["fixed-size, aligned instructions", "quipper's SPE packet decoder is replaced by a stand-in"]

    def conv(self, b):
        r = self.rng
        s = {"taken": b["t"], "nottaken": b["n"], "br": b["B"]}
        r.shuffle(s["taken"])
        return self.convert(s)

    def convert(self, s):
        r = self.rng
        s.setdefault("lo", 0)
        s.setdefault("hi", 100000)
        s.update(mode="convert", size=r.choice([4, 4, 4, 4]), base=str(r.choice([0, 4096, 2**40])),
                 unit=str(r.choice([1, 1, 2**31 + 1, 2**33])), shift=r.choice([0, 8192, 2**41]))
        return s

    @property
    def gens(self):
        return [("S03Gen", "S03Gen", 200 if self.tier == "quick" else 3000, 16, self.conv)]

    def flow(self, r, n, br, k, miss=0.0):
        """A random walk over the program: recorded branches."""
        taken, nots = [], []
        pc = r.randrange(n)
        taken.append([-1, pc])
        for _ in range(k):
            nb = [b for b in br if b >= pc]
            if not nb or r.random() < .05:
                if nb:
                    taken.append([nb[0], -1])
                pc = r.randrange(n)
                taken.append([-1, pc])
                continue
            b = nb[0]
            if r.random() < .4 and b + 1 < n:
                if r.random() >= miss:
                    nots.append([b])
                pc = b + 1
            else:
                t = r.choice([x for x in range(n)])
                if r.random() >= miss:
                    taken.append([b, t])
                pc = t
        return taken, nots

    def scripts(self, r, tier):
        out = []
        N = 120 if tier == "quick" else 2500
        for _ in range(N):
            n = r.choice([4, 10, 40, 300])
            br = sorted(r.sample(range(n), r.randint(0, min(n, 12))))
            tk, nt = self.flow(r, n, br, r.randint(1, 25), .3)
            s = {"taken": [t + [r.choice([1, 1, 2, 5, 0])] for t in tk], "nottaken": [x + [r.choice([1, 3, 0])] for x in nt],
                 "br": br}
            if r.random() < .5:
                s["lo"] = r.randint(0, n // 4)
                s["hi"] = r.randint(n - n // 4, n + 5)
            if r.random() < .3:
                s["nottaken"].append([-1, 4])
                s["taken"].append([-1, -1, 4])
            # far apart targets
            if r.random() < .3:
                s["taken"].append([n // 2, 3000, 2])
            out.append(self.convert(s))
        for _ in range(N):
            simple = r.random() < .45
            n = r.choice([4, 10, 40, 200])
            text = [r.choice("nnnnaabcczrli?" if r.random() < .97 else "b") for _ in range(n)]
            br = [i for i in range(n) if text[i] in BRANCH]
            s = {"mode": "simple" if simple else "full", "binary": "prog", "br": br, "lo": 0, "hi": n, "size": 4,
                 "how": r.choice(["disassembly", "sampling"]), "base": str(r.choice([2**20, 2**47 - 2**24]))}
            pie = simple or r.random() < .7
            foff = r.choice([0x1000, 0x2000, 0x10000])
            vaddr = r.choice([foff, foff + 0x10000, 0x400000])
            s["foff"] = str(foff)
            code = b"".join(struct.pack("<I", OPS[c]) for c in text)
            if not pie:
                s["base"] = str(vaddr)
            if not simple:
                e = elfgen.Elf(elfgen.ARM64, elfgen.DYN if pie else elfgen.EXEC)
                e.section(".text", code, addr=vaddr, flags=elfgen.A | elfgen.X, offset=foff, align=4)
                e.load(0, vaddr - foff if vaddr >= foff else 0, foff, flags=4, align=0x1000)
                e.load(foff, vaddr, len(code), align=0x1000)
                e.symbol("main", vaddr, len(code))
                if r.random() < .5:
                    s["bid"] = "abcd0123"
                    e.build_id(bytes.fromhex("abcd0123"))
                else:
                    s["re"] = r.choice(["prog$", "/bin/prog", "[o]g$"])
                e.save(self.tmp + "/x.elf")
                with open(self.tmp + "/x.elf", "rb") as f:
                    s["elf"] = f.read().hex()
            s["files"] = []
            for _ in range(r.choice([1, 1, 2])):
                tk, nt = self.flow(r, n, br, r.randint(0, 25), .3)
                start = 0 if not pie else r.choice([0, 1024, 5000])
                at = lambda p: start + p if p >= 0 else r.choice([900001, 800001, start + n + 3, 700000])
                recs = [[at(f), at(t), 1, 1, r.choice([0, 1]), 0] for f, t in tk]
                recs += [[at(p[0]), at(r.randrange(n)), 1, 1, 1, 1] for p in nt]
                # unconditional branches marked not-taken are taken branches
                recs += [[at(f), at(t), 1, 1, 0, 1] for f, t in tk if r.random() < .1]
                # squashed or not branches
                recs += [[at(f), at(t), r.choice([0, 1]), 0, 1, r.choice([0, 1])] for f, t in tk if r.random() < .1]
                recs += [[at(f), at(t), 0, 1, 1, r.choice([0, 1])] for f, t in tk if r.random() < .1]
                r.shuffle(recs)
                s["files"].append({"map": {"start": start, "len": n, "pgoff": 0}, "recs": recs,
                                   "cut": r.randint(0, len(recs))})
            # the tool's choice of a reader
            s["via"] = not simple and len(s["files"]) == 1 and r.random() < .5
            out.append(s)
        return out
