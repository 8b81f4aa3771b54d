import build
import vf


class Check(vf.Check):
    pid = "R09"
    harness = ("R09", build.ALL + ["h:R09.cc"])
    trace = "R09Trace"
    mc = [("FilesMC", "R09MC", 4)]
    mc_thorough = [("FilesMC", "R09MC_big", 8)]
    tamper_keys = ("r", "ok")
    assumptions = ["a file does not change while it is read"]
    level_note = ("A consumer asking while files come and go is model-checked; its behaviours and larger random ones run on the real provider "
                  "over scripted and real files, each answer validated by TLC.")

    @property
    def gens(self):
        return [("FilesGen", "FilesGen", 150 if self.tier == "quick" else 4000, 15, self.conv)]

    def conv(self, b):
        return {"names": b["names"], "ops": b["ops"], "disk": self.rng.random() < .3}

    def scripts(self, r, tier):
        out = []
        for _ in range(250 if tier == "quick" else 6000):
            pool = ["f%d" % i for i in range(r.randint(1, 6))] + ["perf data.1"]
            names = [r.choice(pool) for _ in range(r.choice([0, 1, 2, 3, 5, 12, 40]))]
            ops = []
            for n in set(names):
                if r.random() < .8:
                    ops.append({"op": "put", "name": n, "c": r.choice(["", "x", "abc\n", n]), "n": r.choice([0, 1, 3, 2000])})
            for _ in range(r.randint(1, 60)):
                x = r.random()
                n = r.choice(pool)
                if x < .08:
                    ops.append({"op": "del", "name": n})
                elif x < .25:
                    ops.append({"op": "put", "name": n, "c": r.choice(["", "q", "zz"]), "n": r.choice([0, 1, 5])})
                elif x < .35:
                    ops.append({"op": "all"})
                elif x < .5:
                    ops.append({"op": "one"})
                else:
                    ops.append({"op": "next"})
            out.append({"names": names, "ops": ops, "disk": r.random() < .3})
        return out
