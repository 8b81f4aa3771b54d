import elfgen
import propgen
from propgen import *


def conv(b):
    r = __import__("random").Random(len(b["br"]) * 31 + len(b["still"]))
    s = start(r, b["prog"], unit=r.choice([1, 1, 1000, 1 << 33]))
    s["ops"] = [{"op": "mapper", "filter": True}]
    for size in (0, 1):
        s["ops"].append({"op": "agg", "kind": "F", "lazy": False, "bysize": True, "size": size, "br": b["br"], "still": b["still"],
                         "steps": b["steps"], "stat": 3, "q": r.choice(["EA", "A", "AEA"])})
    return s


class Check(PropCheck):
    pid = "R07"
    mc = [("FlowMC", "R07MC", 8), ("FlowMC", "R07MC_two", 8)]
    mc_thorough = [("FlowMC", "R07MC_big", 8), ("FlowMC", "R07MC_two_big", 8)]
    gens = [("FlowGen", "FlowGen", 250, 70, conv)]
    gens_thorough = [("FlowGen", "FlowGen", 4000, 70, conv)]
    n_quick, n_thorough = 350, 9000
    again = ("Agg",)
    assumptions = [
        "functions do not overlap and are listed by address, as linkers emit them",
        "each aggregator is asked by one thread",
    ]

    def one(self, r):
        far = r.random() < .3
        prog = program(r, nb=8, far=far, zero=r.choice([0, .15]))
        arm = r.random() < .4
        s = start(r, prog, far, unit=r.choice([1, 1, 1000, 1 << 33]), machine=elfgen.ARM64 if arm else elfgen.X86)
        ads = addresses(prog)
        s["ops"].append({"op": "mapper", "filter": r.random() < .5})
        for _ in range(r.randint(1, 3)):
            n = r.choice([0, 1, 4, 10, 25])
            br, ft = counters(r, prog, n, bad=r.choice([.05, .3]), cap=r.choice([3, 50]))
            op = {"op": "agg", "lazy": r.random() < .5, "ok": r.random() < .9, "stat": r.randint(0, 9), "br": br,
                  "q": "".join(r.choice("EA") for _ in range(r.randint(1, 5)))}
            if r.random() < .3:
                op.update(kind="L", ft=ft)
            else:
                bysize = not op["lazy"] and r.random() < .6
                size = r.choice([0, 1, 2, 4]) if bysize else 4 if arm else 0
                still = {}
                lasts = [baddr(prog, h) + prog["funcs"][h[0]]["blocks"][h[1]]["size"] - (size or 1) for h in handles(prog)]
                # many branches end their block
                fix = []
                for a, b, c in br:
                    if r.random() < .5:
                        a = r.choice(lasts)
                    fix.append((a, b, c))
                op["br"] = [[a, b, c] for (a, b), c in {(a, b): c for a, b, c in fix if a > 0}.items()]
                for _ in range(r.choice([0, n])):
                    a = r.choice(lasts) if r.random() < .8 else r.choice(ads)
                    if a > 0:
                        still[a] = r.randint(0, 9)
                op.update(kind="F", bysize=bysize, size=size, still=[[a, c] for a, c in still.items()])
            s["ops"].append(op)
        return s
