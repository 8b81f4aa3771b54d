import propgen
from propgen import *


class Check(PropCheck):
    pid = "R06"
    mc = [("GraphMC", "R06MC", 8)]
    mc_thorough = [("GraphMC", "R06MC_big", 8)]
    gens = graph_gens(1, {"op": "proto"}, {"op": "threshold", "q": [0, 10, 50, 90, 100], "j": [[1, 1], [2, 2]]})
    gens_thorough = graph_gens(10, {"op": "proto"}, {"op": "threshold", "q": [0, 10, 50, 90, 100], "j": [[1, 1], [2, 2]]})
    n_quick, n_thorough = 800, 16000

    def one(self, r):
        s = {"unit": r.choice([1, 1000, 1 << 20]), "base": hex(r.choice(BASES)), "ops": []}
        g = graph(r, r.randint(1, 5), r.choice([2, 4, 8]), r.choice([0, .5, 1, 2]), r.choice([1, 3, 40]), secs=(".text", ".init"), back=r.random() < .4)
        if r.random() < .4:
            g["upd"] = True
            more = [e[:4] + [r.randint(1, 5), e[5]] for e in g["edges"] if r.random() < .5]
            g["edges"] += more
        s["ops"].append(g)
        for _ in range(r.randint(0, 3)):
            c = r.choice(g["cfgs"])
            n = len(c["nodes"])
            s["ops"].append({"op": "clone", "f": c["f"], "pred": r.randrange(n), "path": [r.randrange(n) for _ in range(r.randint(0, 4))]})
        s["ops"].append({"op": "proto"})
        s["ops"].append({"op": "threshold", "q": sorted({0, 100} | {r.randint(0, 100) for _ in range(6)}),
                         "j": [[r.randint(0, 8), r.randint(0, 5)] for _ in range(3)]})
        return s
