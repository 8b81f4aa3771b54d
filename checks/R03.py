import propgen
from propgen import *


class Check(PropCheck):
    pid = "R03"
    mc = [("GraphMC", "R03MC", 8), ("GraphMC", "R03MC_inter", 8)]
    mc_thorough = [("GraphMC", "R03MC_big", 8), ("GraphMC", "R03MC_inter_big", 8)]
    gens = graph_gens(1, {"op": "cluster"}, {"op": "layout"})
    gens_thorough = graph_gens(10, {"op": "cluster"}, {"op": "layout"})
    n_quick, n_thorough = 1000, 20000
    assumptions = ["distances are powers of two, so that scores are exact",
                   "the executions at every block and edge fit the graph's 32-bit counts"]
    again = ("Clusters", "Layout", "Write")

    def one(self, r):
        far = r.random() < .2
        unit = r.choice([1, 1, 1000, 1 << 20, 1 << 24, 1 << 26])
        s = {"unit": unit, "base": hex(r.choice(BASES[:5] if far else BASES)), "far": far, "ops": []}
        secs = r.choice([(".text",), (".text", ".init")])
        s["ops"].append(graph(r, r.randint(1, 5), r.choice([2, 4, 6]), r.choice([0, .5, 1, 2]), r.choice([1, 3, 40]),
                              secs=secs, shape=r.choice(["any", "any", "chain", "loop"]), far=far,
                              mul=r.choice([5, 20, 100]) if unit == 1 and not far and r.random() < .6 else 1))
        if not fits(s["ops"][0], unit):
            s["unit"] = 1000
        for _ in range(r.randint(1, 3)):
            p, scale = params(r)
            s["ops"] += [{"op": "scale", "n": scale}, {"op": "cluster", "params": p}, {"op": "layout", "params": p}]
        return s
