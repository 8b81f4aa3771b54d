import build
import elfgen
import propgen
from propgen import *

KEEP = [["", "usr", "bin", "app"], ["", "opt", "app"]]
OTHER = [["", "lib", "ld.so"], ["", "usr", "bin", "appx"], ["[vdso]"]]


class Check(PropCheck):
    pid = "R12"
    mc = [("PipeMC", "R12MC", 4)]
    mc_thorough = [("PipeMC", "R12MC_big", 8)]
    n_quick, n_thorough = 320, 6000
    level_note = ("Every combination of options and recordings up to the bound is run through the stages in TLC and must end as the specification "
                  "says; the real generator is run on generated binaries, recordings and options, and its files, statistics, progress and refusals "
                  "are judged against the stages' own results, each validated by TLC.")
    assumptions = ["the perf.data container parser (quipper) and the SPE decoder are replaced by stand-ins",
                   "functions do not overlap",
                   "the executions at every block and edge fit the graph's 32-bit counts"]

    def build_harness(self):
        build.build("tool_create_llvm_prof", build.ALL + ["create_llvm_prof.cc"])
        return build.build(*self.harness)

    def run_harness(self, exe, scripts, tag, env=None):
        return super().run_harness(exe, scripts, tag, dict(env or {}, VH_TOOLS=build.B + "/bin"))

    def one(self, r):
        spe = r.random() < .35
        arm = r.random() < (.6 if spe else .1)
        prog = program(r, nb=6, zero=r.choice([0, .1]), odd=r.random() < .3)
        bid = r.choice(["", "abcd12ef", "abcd12ef", "00ff00ff"])
        if r.random() < .4:
            units(r, prog)
        s = start(r, prog, machine=elfgen.ARM64 if arm else elfgen.X86, bid=bid)
        base = int(s["base"], 16)
        low = base & 0xfff
        hi = max(F["addr"] + extent(F["blocks"]) for F in prog["funcs"])
        size = max(max(hi, 64), 0x1000)
        size = max(max([F["addr"] + F["blocks"][-1]["off"] + F["blocks"][-1]["size"] for F in prog["funcs"]] + [64]), 0x1000)
        seg = {"off": 0x1000, "va": -low, "size": size}
        self.seg, self.low, self.hi, self.prog, self.spe = seg, low, hi, prog, spe
        self.bid = bid
        op = {"op": "pipe", "seg": seg, "bid": bid, "fixed": 4 if spe and arm else 0, "api": r.choice([0, 0, 0, 1, 2]),
              "type": "SPE" if spe else "LBR", "http": r.random() < .6, "mod": any(prog.get("cus", [])) and r.random() < .6, "dump": r.random() < .2, "bin": True, "names": [],
              "filter": r.random() < .5, "ver": r.choice([0, 1]), "verbose": r.random() < .4, "dep": [], "noid": False}
        tool = r.random() < .35
        if tool:
            op["api"], op["filter"], op["list"] = 3, True, r.random() < .4
        if spe and op["api"] == 2:
            op["api"] = r.choice([0, 1])
        x = r.random()
        if x < .35 or not bid and x < .6:
            op["match"], op["names"] = "name", [r.choice([KEEP[0], KEEP[0], ["app"], ["", "T", "prog"], ["nosuch"] if r.random() < .1 else KEEP[0]])]
            op["noid"] = r.random() < .3
        elif x < .7:
            op["match"], op["names"] = "path", [["", "T", "prog"]]
        else:
            op["match"] = "id"
        # what the recordings call the binary
        self.call = {"name": op["names"][0] if op["names"] and op["names"][0][0] == "" else KEEP[0], "path": ["", "T", "prog"], "id": KEEP[0]}[op["match"]]
        if self.call == ["app"] or self.call == ["nosuch"]:
            self.call = KEEP[0]
        self.slide = {}
        for pid in (1, 2, 9):
            page = r.choice([0x400000, 0x555555554000, 0x7f1234567000, 0x7fffffff0000])
            self.slide[pid] = (page - (base - low)) % (1 << 64)
        self.branches, self.falls = counters(r, prog, r.choice([2, 8, 20]), bad=r.choice([0, 0, .02, .05, .3]))
        if r.random() < .8:
            self.branches = self.clean(r, prog) or self.branches
        if r.random() < .7:      # one kind of branch between two blocks
            seen, kept = {}, []
            blk = lambda a: max([h for h in handles(prog) if baddr(prog, h) <= a] or [(0, 0)], key=lambda h: baddr(prog, h))
            for b in self.branches:
                if seen.setdefault((blk(b[0]), blk(b[1])), b[1]) == b[1]:
                    kept.append(b)
            self.branches = kept
        kind = "SPE" if spe else "LBR"
        op["files"] = [self.rec(r, kind if spe or tool or r.random() < .5 else "-") for _ in range(r.choice([1, 1, 2, 3]))]
        if op["api"] == 2 and r.random() < .5:
            op["dep"] = [self.rec(r, "-") for _ in range(r.randint(1, 2))]
            if r.random() < .4:
                op["files"] = []
        # at times something is wrong
        if r.random() < .22:
            f = r.choice(op["files"]) if op["files"] else {}
            x = r.randrange(7)
            if x == 0:
                op["bin"] = False
            elif x == 1:
                op["mod"] = True
            elif x == 2:
                op["dep"] = op["dep"] or [self.rec(r, "-")]
            elif x == 3:
                op["files"] = []
            elif x == 4 and f:
                f["type"] = r.choice(["-", "LBR", "SPE", "FREQ"])
            elif x == 5:
                op["type"] = "FREQ"
                for g in op["files"]:
                    g["type"] = "FREQ"
            elif f:
                f["state"] = r.choice(["gone", "bad"])
        if tool:
            k = r.choice(["LBR", "SPE", "-"]) if r.random() < .06 else kind
            op["dep"] = []
            for f in op["files"]:
                f["type"] = k
        kinds = {op["type"]} if op["api"] == 1 else {"LBR" if f["type"] == "-" else f["type"] for f in op["files"]}
        spe = self.spe = kinds == {"SPE"}
        op["fixed"] = 4 if spe and arm else 0
        op["slide"] = {str(p): hex(v) for p, v in self.slide.items()}
        T, N = self.tables(op)
        ends = {x for k in T for x in k} | ({x for k in N for x in k} if not spe else set(N))
        p, scale = params(r)
        if tool:
            p.update(ftw=10, fww=1, bww=1, cms=2097152)
            if not p["sf"] and not p["rhb"] and r.random() < .8:
                p[r.choice(["sf", "rhb"])] = True
            op["args"] = self.flags(r, op, p, k)
        op["params"] = p
        rows = lambda m: [[k[0], k[1], n] for k, n in sorted(m.items())]
        agg = {"op": "agg", "kind": "F" if spe else "L", "lazy": False, "bysize": False, "stat": 0, "q": "A", "br": rows(T), "size": op["fixed"]}
        if spe:
            agg["still"] = [[a, n] for a, n in sorted(N.items())]
        else:
            agg["ft"] = rows(N)
        s["ops"] = [{"op": "scale", "n": scale}, {"op": "mapper", "filter": op["filter"], "hot": sorted(ends)}, agg,
                    {"op": "build", "agg": True, "mod": op["mod"]}, {"op": "layout", "params": p}, op]
        return s

    def flags(self, r, op, p, k):
        b = lambda n, v: "--%s%s" % ("" if v else "no", n)
        a = [("--profiler=" + {"LBR": "perf", "SPE": "perf_spe", "-": "other"}[k], k == "LBR"),
             (b("http", op["http"]), not op["http"]), (b("propeller_output_module_name", op["mod"]), not op["mod"]),
             ("--propeller_cluster_encoding_version=%d" % (op["ver"] + 1), op["ver"] == 1),
             (b("propeller_verbose_cluster_output", op["verbose"]), not op["verbose"]),
             (b("propeller_chain_split", p["split"]), p["split"]), ("--propeller_chain_split_threshold=%d" % p["thr"], p["thr"] == 0),
             ("--propeller_forward_jump_distance=%d" % p["fwd"], p["fwd"] == 1024), ("--propeller_backward_jump_distance=%d" % p["bwd"], p["bwd"] == 680),
             (b("propeller_call_chain_clustering", p["ccc"]), not p["ccc"]), (b("propeller_inter_function_ordering", p["inter"]), not p["inter"]),
             (b("propeller_split_only", not p["rhb"]), p["rhb"]), (b("propeller_layout_only", not p["sf"]), p["sf"])]
        a = [f for f, default in a if not default or r.random() < .6]
        r.shuffle(a)
        return a

    def clean(self, r, prog):
        """Branches code has: jumps within a function, calls, returns."""
        out = []
        hs = [h for h in handles(prog) if prog["funcs"][h[0]]["blocks"][h[1]]["size"]]
        end = lambda h: baddr(prog, h) + prog["funcs"][h[0]]["blocks"][h[1]]["size"] - 1
        for h in hs:
            B = prog["funcs"][h[0]]["blocks"][h[1]]
            for _ in range(r.choice([0, 1, 1, 2])):
                if B["ret"]:
                    t = r.choice(hs)
                    out.append((end(h), baddr(prog, t) + (prog["funcs"][t[0]]["blocks"][t[1]]["size"] // 2), 1))
                elif r.random() < .7:
                    t = [x for x in hs if x[0] == h[0] and x[1]]
                    if t:
                        out.append((end(h), baddr(prog, r.choice(t)), 1))
                else:
                    out.append((r.choice([end(h), baddr(prog, h)]), prog["funcs"][r.choice(hs)[0]]["addr"], 1))
        r.shuffle(out)
        return out[:r.choice([3, 8, 30])]

    def rec(self, r, type):
        evs, ids = [], []
        pids = r.sample([1, 2, 9], r.randint(1, 3))
        n = (self.seg["size"] + self.low + 0xfff) & ~0xfff
        for p in pids:
            cuts = [0, n] if r.random() < .7 or n < 0x2000 else [0, 0x1000 * r.randint(1, n // 0x1000 - 1), n]
            for a, b in zip(cuts, cuts[1:]):
                if r.random() < .05:
                    continue
                evs.append({"pid": p, "start": a - self.low, "len": b - a, "pgoff": 0x1000 + a, "name": self.call})
            if r.random() < .2:
                evs.append(dict(evs[-1]) if evs else {"pid": p, "start": 1 << 20, "len": 64, "pgoff": 0, "name": OTHER[0]})
            if r.random() < .3:
                evs.append({"pid": p, "start": r.choice([1 << 20, -self.low]), "len": 4096, "pgoff": 0x1000, "name": r.choice(OTHER)})
        if r.random() < .05:
            evs = [e for e in evs if e["name"] != self.call]
        if r.random() < .03 and evs:
            evs.append(dict(evs[0], start=evs[0]["start"] + 1))
        r.shuffle(evs)
        if r.random() < .9:
            ids.append({"name": self.call, "id": self.bid or "77", "anon": False})
        if r.random() < .4:
            ids.append({"name": r.choice(OTHER), "id": r.choice(["77", "abcd", self.bid or "77"]) if r.random() < .3 else "1234", "anon": False})
        r.shuffle(ids)
        f = {"type": type, "state": "ok", "evs": evs, "ids": ids, "samples": [], "recs": []}
        pick = lambda: r.choice(self.branches)
        for _ in range(r.choice([0, 2, 6, 14])):
            pid, st = r.choice(pids * 3 + [9]), []
            for _ in range(r.choice([0, 1, 2, 4, 8, 8])):
                a, b, _ = pick()
                if st and r.random() < .7:       # an older branch, after which the code ran to the newer one's source
                    want = [t for t, e, _ in self.falls if e == st[-1][0]] or [t for _, t, _ in self.branches if t <= st[-1][0]]
                    b = r.choice(want) if want else b
                if r.random() < .02:
                    a = 1 << 21
                if r.random() < .02:
                    b = 1 << 21
                st.append([a, b])
            f["samples"] += [{"pid": pid, "has": r.random() < .95, "stack": st}] * r.choice([1, 1, 3])
        srcs = [a for a, _, _ in self.branches]
        for _ in range(r.choice([0, 4, 20])):
            a, b, _ = pick()
            if r.random() < .03:
                a = 1 << 21
            f["recs"] += [{"pid": r.choice(pids + [9]), "from": a, "to": b, "retired": r.random() < .9, "branch": r.random() < .9,
                           "cond": r.random() < .6, "nottaken": r.random() < .4}] * r.choice([1, 1, 3])
        return f

    # the tables of the recordings read, for the stages; TLC compares them
    # with the specification's
    def maps(self, op, f):
        names = [tuple(n) for n in op["names"]]
        if not names:
            names = [tuple(i["name"]) for i in f["ids"] if self.bid and i["id"] == self.bid]
        if f["state"] != "ok" or not names:
            return {}
        den = lambda w, n: w == n if w[0] == "" and len(w) > 1 else w[-1] == n[-1]
        ms = {}
        for e in f["evs"]:
            if not any(den(w, tuple(e["name"])) for w in names):
                continue
            m = (e["start"], e["len"], e["pgoff"])
            q = ms.setdefault(e["pid"], set())
            if any(x != m and x[0] < m[0] + m[1] and m[0] < x[0] + x[1] for x in q):
                return {}
            q.add(m)
        return ms

    def tables(self, op):
        T, N = {}, {}
        q = op["dep"] + op["files"] if op["api"] == 2 else op["files"]
        for f in q:
            ms = self.maps(op, f)

            def tr(pid, x):
                for a, n, off in ms[pid]:
                    if a <= x < a + n:
                        pos = x - a + off
                        return x - a + off - self.seg["off"] + self.seg["va"] if self.seg["off"] <= pos < self.seg["off"] + self.seg["size"] else -1
                return -1

            def inc(t, k):
                t[k] = t.get(k, 0) + 1
            if not self.spe:
                for sm in f["samples"]:
                    if not sm["has"] or sm["pid"] not in ms:
                        continue
                    st = [(tr(sm["pid"], a), tr(sm["pid"], b)) for a, b in sm["stack"]]
                    for i, k in enumerate(st):
                        inc(T, k)
                        if i + 1 < len(st):
                            a, b = st[i + 1][1], st[i][0]
                            if a != -1 and (b == -1 or a <= b):
                                inc(N, (a, b))
            else:
                for x in f["recs"]:
                    if x["pid"] not in ms or not x["retired"] or not x["branch"]:
                        continue
                    if x["cond"] and x["nottaken"]:
                        inc(N, tr(x["pid"], x["from"]))
                    else:
                        inc(T, (tr(x["pid"], x["from"]), tr(x["pid"], x["to"])))
        return T, N
