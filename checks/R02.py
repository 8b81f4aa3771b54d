import propgen
from propgen import *


class Check(PropCheck):
    pid = "R02"
    mc = [("CfgMC", "R02MC", 8)]
    mc_thorough = [("CfgMC", "R02MC_big", 8)]
    gens = cfg_gens(2, "build")
    gens_thorough = cfg_gens(20, "build")
    n_quick, n_thorough = 1000, 20000
    assumptions = [
        "the executions at every block and edge fit the graph's 32-bit counts",
        "functions do not overlap and are listed by address, as linkers emit them",
    ]

    def one(self, r):
        far = r.random() < .3
        while True:
            prog = program(r, far=far, odd=r.random() < .4)
            if r.random() < .4:
                units(r, prog)
            s = start(r, prog, far, unit=r.choice([1, 1, 1000, 1 << 20]))
            break
        for _ in range(r.randint(1, 2)):
            br, ft = counters(r, prog, r.randint(0, 14), r.choice([0, 0, .05, .3]))
            if r.random() < .1:
                br = []
            op = {"op": "mapper", "filter": r.random() < .5}
            if r.random() < .4:
                op["hot"] = sorted({x for b in br + ft for x in b[:2]})
            s["ops"] += [op, {"op": "build", "br": br, "ft": ft, "mod": r.random() < .7}]
        return s
