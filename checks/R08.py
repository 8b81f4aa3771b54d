import build
import vf


def conv_tree(b):
    return {"tree": b}


def conv_reg(b):
    return {"n": 3, "us": 250, "steps": b}


class Check(vf.Check):
    pid = "R08"
    harness = ("R08", build.ALL + ["h:R08.cc"])
    trace = "R08Trace"
    mc = [("StatusMC", "R08MC", 4), ("RegistryMC", "R08Reg", 4)]
    mc_thorough = [("StatusMC", "R08MC_big", 8), ("RegistryMC", "R08Reg_big", 8)]
    gens = [("StatusGen", "StatusGen", 150, 26, conv_tree), ("RegistryGen", "RegistryGen", 120, 60, conv_reg)]
    gens_thorough = [("StatusGen", "StatusGen", 2500, 26, conv_tree), ("RegistryGen", "RegistryGen", 2000, 60, conv_reg)]
    tamper_keys = ("r", "left", "p", "c")
    assumptions = ["weights are positive and single jobs are set to 0..100",
                   "consumers do not call the registry they are called by",
                   "a call that must wait is observed for a fraction of a millisecond"]
    level_note = ("Trees of parts and threads using the registry are model-checked; grown trees and schedules are replayed on the real classes, "
                  "each progress answer and each call a consumer receives validated by TLC, which finds where between call and return an operation took effect.")

    def scripts(self, rng, tier):
        out = []
        for _ in range(150 if tier == "quick" else 4000):
            out.append({"tree": self.tree(rng)})
        for _ in range(60 if tier == "quick" else 1500):
            n = rng.randint(1, 4)
            steps, c = [], 0
            for _ in range(rng.randint(3, 25)):
                x = rng.random()
                t = rng.randint(1, n)
                if x < .25:
                    c += 1
                    steps.append(["register", t, c])
                elif x < .4:
                    steps.append(["start", t, rng.randint(1, 3)])
                elif x < .55:
                    steps.append(["stop", t, 0])
                else:
                    steps.append(["tell"])
            out.append({"n": n, "us": rng.choice([100, 300]), "steps": steps, "global": rng.random() < .2})
        return out

    def tree(self, r):
        ops, leaves, groups, loose = [], [], [], []
        for i in range(1, r.randint(2, 22)):
            x = r.random()
            if x < .2 or not loose and not leaves:
                ops.append({"op": "leaf", "id": i, "job": "l%d" % i})
                leaves.append(i)
                loose.append(i)
            elif x < .35:
                ops.append({"op": "group", "id": i, "job": r.choice(["g%d" % i, "a - b", ""])})
                groups.append(i)
                loose.append(i)
            elif x < .65 and groups:
                g = r.choice(groups)
                up = {g}
                owner = {o["sub"]: o["id"] for o in ops if o["op"] == "add"}
                y = g
                while y in owner:
                    y = owner[y]
                    up.add(y)
                c = [z for z in loose if z not in up]
                if c:
                    s = r.choice(c)
                    loose.remove(s)
                    ops.append({"op": "add", "id": g, "sub": s, "w": r.choice([1, 1, 3, 10, 500, 50000, 1000000])})
            elif x < .9 and leaves:
                ops.append({"op": "set", "id": r.choice(leaves), "p": r.choice([0, 1, 29, 50, 53, 58, 99, 100, r.randint(0, 100)])})
            elif leaves + groups:
                ops.append({"op": "done", "id": r.choice(leaves + groups)})
        return ops
