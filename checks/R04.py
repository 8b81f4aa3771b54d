import propgen
from propgen import *


class Check(PropCheck):
    pid = "R04"
    mc = [("GraphMC", "R04MC", 8), ("GraphMC", "R04MC_inter", 8)]
    mc_thorough = [("GraphMC", "R04MC_big", 8), ("GraphMC", "R04MC_inter_big", 8)]
    gens = graph_gens(1, {"op": "chain"})
    gens_thorough = graph_gens(10, {"op": "chain"})
    n_quick, n_thorough = 1000, 20000
    assumptions = ["distances are powers of two, so that scores are exact",
                   "the executions at every block and edge fit the graph's 32-bit counts"]

    def one(self, r):
        far = r.random() < .2
        unit = r.choice([1, 1, 1000, 1 << 20, 1 << 25, 1 << 27])
        s = {"unit": unit, "base": hex(r.choice(BASES[:5] if far else BASES)), "far": far, "ops": []}
        g = graph(r, r.randint(1, 4), r.choice([2, 4, 5, 7]), r.choice([.5, 1, 2, 4]), r.choice([1, 3, 10]),
                  shape=r.choice(["any", "any", "chain", "loop"]), far=far)
        s["ops"].append(g)
        if not fits(g, unit):
            s["unit"] = 1000
        p, scale = params(r)
        init = []
        if r.random() < .3:
            c = r.choice(g["cfgs"])
            # blocks that run, in any order
            live = sorted({e[1] for e in g["edges"] if e[0] == c["f"]} | {e[3] for e in g["edges"] if e[2] == c["f"]})
            live = [x for x in live if x]
            r.shuffle(live)
            if len(live) > 1:
                k = r.randint(2, len(live))
                init = [{"f": c["f"], "chains": [live[:k]]}]
        s["ops"] += [{"op": "scale", "n": scale}, {"op": "chain", "params": p, "init": init}, {"op": "layout", "params": p}]
        return s
