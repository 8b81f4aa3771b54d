import propgen
from propgen import *


class Check(PropCheck):
    pid = "R05"
    mc = [("GraphMC", "R05MC", 8)]
    mc_thorough = [("GraphMC", "R05MC_big", 8)]
    gens = graph_gens(1, {"op": "layout"}, {"op": "write", "ver": 0}, {"op": "write", "ver": 1}, {"op": "write", "ver": 1, "verbose": True, "dump": True})
    gens_thorough = graph_gens(10, {"op": "layout"}, {"op": "write", "ver": 0}, {"op": "write", "ver": 1}, {"op": "write", "ver": 1, "verbose": True, "dump": True})
    n_quick, n_thorough = 800, 16000

    def one(self, r):
        s = {"unit": r.choice([1, 1000]), "base": hex(r.choice(BASES)), "ops": []}
        secs = r.choice([(".text",), (".text", ".init")])
        s["ops"].append(graph(r, r.randint(1, 5), r.choice([2, 4, 6]), r.choice([0, .5, 1, 2]), r.choice([1, 3, 40]),
                              secs=secs, shape=r.choice(["any", "any", "chain", "loop"])))
        for _ in range(r.randint(1, 2)):
            p, scale = params(r)
            s["ops"] += [{"op": "scale", "n": scale}, {"op": "layout", "params": p}]
            for _ in range(2):
                s["ops"].append({"op": "write", "ver": r.choice([0, 1]), "verbose": r.random() < .4, "dump": r.random() < .4})
        return s
