import build
import vf

F = ("dup nosym hotf mmaps parsed br cnd cndw may mayw cant cantw same cfgs pads nodes hotb empty ointra nintra ointer ninter "
     "single multi paths bbs bytes gain").split()


class Check(vf.Check):
    pid = "R11"
    harness = ("R11", build.ALL + ["h:R11.cc"])
    trace = "R11Trace"
    mc = [("StatsMC", "R11MC", 4)]
    mc_thorough = [("StatsMC", "R11MC_big", 8)]
    tamper_keys = ("r",)
    assumptions = ["counters stay below 2^53"]
    level_note = ("Runs combining in every order and grouping are model-checked; histories of combinations run on the real statistics with every "
                  "counter filled, each counter, total and description validated by TLC.")

    def scripts(self, r, tier):
        out = []
        for _ in range(300 if tier == "quick" else 8000):
            u = r.choice([1, 1, 1, 1 << 20, 1 << 33])
            runs = []
            for _ in range(r.randint(1, 4)):
                full = r.random() < .5
                n = {f: (r.choice([1, 2, 3, 7, 50, 999, 4000]) if full or r.random() < .3 else 0) for f in F}
                if r.random() < .15:
                    n = dict.fromkeys(F, 0)
                tab = lambda m: [[k, r.choice([1, 2, 3, 40, 900])] for k in r.sample(range(m), r.randint(0, m))]
                runs.append({"n": n, "edges": tab(3), "weights": tab(3), "merges": tab(5)})
            ops = []
            for _ in range(r.randint(1, 5)):
                i, j = r.randint(1, len(runs)), r.randint(1, len(runs))
                x = r.random()
                if x < .15 and u == 1:
                    ops.append({"op": "inc", "i": i, "j": r.randint(1, 3), "w": r.choice([0, 1, 5, 100])})
                elif x < .4 and u == 1:
                    ops.append({"op": "tell", "i": i})
                else:
                    ops.append({"op": r.choice(["add", "add", "copyadd"]), "i": i, "j": j})
            if u == 1:
                ops.append({"op": "tell", "i": 1})
            out.append({"unit": str(u), "runs": runs, "ops": ops})
        return out
