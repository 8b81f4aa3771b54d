import propgen
from propgen import *


class Check(PropCheck):
    pid = "R01"
    mc = [("CfgMC", "R01MC", 8)]
    mc_thorough = [("CfgMC", "R01MC_big", 8)]
    gens = cfg_gens(1, "find", "fall", "kind")
    gens_thorough = cfg_gens(10, "find", "fall", "kind")
    n_quick, n_thorough = 500, 12000
    assumptions = [
        "functions do not overlap and are listed by address, as linkers emit them",
        "a symbol name is not listed twice at one address",
    ]

    def one(self, r):
        far = r.random() < .3
        prog = program(r, far=far)
        s = start(r, prog, far)
        ads = addresses(prog)
        for _ in range(r.randint(1, 3)):
            op = {"op": "mapper", "filter": r.random() < .6}
            if r.random() < .5:
                op["hot"] = r.sample(ads, min(len(ads), r.randint(0, 4)))
            s["ops"].append(op)
            q = []
            for _ in range(25):
                a = r.choice(ads)
                q.append([a, r.choice("FT")])
            s["ops"].append({"op": "find", "q": q})
            n = len(handles(prog))
            s["ops"].append({"op": "fall", "q": [[r.randrange(60 * n), r.randrange(60 * n)] for _ in range(20)]
                             + [[i, i + d] for i in range(n) for d in (1, 2)]})
            s["ops"].append({"op": "kind", "q": [[r.randint(-1, n), r.randrange(n), r.choice(ads)] for _ in range(15)]})
        return s
