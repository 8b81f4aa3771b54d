import build, vf


class Check(vf.Check):
    pid = "S04"
    harness = ("S04", build.ALL + ["h:S04.cc"])
    trace = "S04Trace"
    mc = [("S04MC", "S04MC", 3)]
    mc_thorough = [("S04MC", "S04MC_big", 7)]
    level_note = ("The attribution rule is model-checked against thread histories with tid reuse delivered in any order; the provider "
                  "is driven with TLC-generated and random event orders, time conversions and record times, every answer validated by TLC.")
    assumptions = ["events of one thread at the same instant in different processes are unordered: either answer is accepted",
                   "counter arithmetic is scaled affinely to 64 bits"]

    def finish(self, s):
        r = self.rng
        if r.random() < .85:
            sh = r.choice([0, 1, 3, 5])
            s["conv"] = {"shift": sh, "mult": r.choice([1, 1, 2, 3, 7, 1 << sh]), "zero": r.choice([0, 0, 1, 5]),
                         "cycles": r.choice([0, 3, 40]), "mod": r.choice([8, 64, 1024]), "short": r.random() < .3}
            s["K"] = str(r.choice([0, 0, 5, 2**33]))
            s["zbase"] = str(r.choice([0, 2**40]))
            if r.random() < .4:
                s["K"] = str(r.choice([0, 0, 5, 2**18]))
                s["fine"] = r.choice([8, 33, 34])
                s["low"] = r.choice([0, 1, 255])
                s["conv"]["mult"] = min(s["conv"]["mult"], 7) if s["fine"] > 8 else 1
            c = s["conv"]
            # record times around event times
            cyc = []
            for e in s["events"]:
                for t in (e["f"][2], e.get("i", [0, 0, 0])[2]):
                    x = ((t - c["zero"]) << sh) // c["mult"]
                    cyc += [x - 1, x, x + 1, x + (1 << sh)]
            if c["short"] and s["K"] == "0":
                cyc = [x for x in cyc if x >= 0] or [0]
            cyc = [max(0, x) for x in cyc] or [0]
        else:
            cyc = [0, 1, 7, 100]
        tids = [5, 6, 7, 8, 9, 11]
        s["queries"] = [[r.choice([1, 2, 3]), r.choice(tids), r.choice(cyc)] for _ in range(14)]
        s["queries"] += [[0, r.choice(tids), r.choice(cyc)]]
        return s

    def conv_(self, b):
        r = self.rng
        ev = []
        for tid, time, pid in b:
            k = r.choice(["fork", "sample", "comm", "map"])
            if k in ("fork", "sample"):
                ev.append({"k": k, "f": [pid, tid, time], "i": [0, 0, 0]})
            else:
                ev.append({"k": k, "f": [pid, tid, 0], "i": [pid, tid, time]})
        return self.finish({"events": ev})

    @property
    def gens(self):
        return [("S04Gen", "S04Gen", 300 if self.tier == "quick" else 4000, 60, self.conv_)]

    def scripts(self, r, tier):
        out = []
        for _ in range(400 if tier == "quick" else 8000):
            ev = []
            t = 1
            few = r.random() < .15
            for _ in range(r.randint(0, 12)):
                t = max(0, t + r.choice([0, 1, 1, 2, 5, -3]))
                pids, tids = ([5], [5, 6]) if few else ([5, 8, 9, 0, -1], [5, 6, 7, 0, -1])
                f = lambda: [r.choice(pids), r.choice(tids), r.choice([t, t, t, 0])]
                k = r.choice(["fork", "sample", "comm", "map"])
                e = {"k": k, "f": f(), "i": f() if r.random() < .7 else [0, 0, 0]}
                if few and k == "fork" and r.random() < .2:
                    e["f"][0] = r.choice([5, 9])
                ev.append(e)
            out.append(self.finish({"events": ev}))
        return out
