"""Programs, sampled branches and control-flow graphs for the Propeller checks."""
import os, struct, tempfile
import elfgen, build, vf

BASES = [0x400000, 0x7ffffff0, 0xfffffff0, 0x100000000, 0x555500000000, 0xffffffff80000000]
SECS = [".text", ".text", ".text", ".text.hot", ".text.unlikely.x", ".init", ".textual", "lib.text"]


def up(base, far, n):
    return base + (((n >> 20) << 32 | (n & 0xfffff)) if far else n)


def uleb(n):
    out = bytearray()
    while True:
        b = n & 0x7f
        n >>= 7
        out.append(b | (0x80 if n else 0))
        if not n:
            return bytes(out)


def bbmap(prog, base, far):
    out = bytearray()
    for F in prog["funcs"]:
        out += struct.pack("<BBQ", 2, 0, up(base, far, F["addr"])) + uleb(len(F["blocks"]))
        end = 0
        for b in F["blocks"]:
            md = b["ret"] * 1 + b["tail"] * 2 + b["eh"] * 4 + b["ft"] * 8 + b["ib"] * 16
            out += uleb(b["id"]) + uleb(b["off"] - end) + uleb(b["size"]) + uleb(md)
            end = b["off"] + b["size"]
    return bytes(out)


def units(r, prog):
    """Compilation units covering functions whole, and some functions not."""
    out, fs = [], [[F["addr"], F["addr"] + max(F["blocks"][-1]["off"] + F["blocks"][-1]["size"], 1)] for F in prog["funcs"]]
    fs = sorted(x for x in fs if r.random() < .8)
    clear = []
    for x in fs:      # (functions at one place are in one unit)
        if clear and x[0] < clear[-1][1]:
            clear[-1][1] = max(clear[-1][1], x[1])
        else:
            clear.append(x)
    for x in clear:
        c = r.choice(out + [None, None])
        if c is None:
            c = {"name": "%s/u%d.cc" % (r.choice(["a", "b b", "."]), len(out)), "rs": [], "v": r.choice([4, 4, 5]), "skel": False}
            out.append(c)
        c["rs"].append(x)
    r.shuffle(out)
    if out and r.random() < .1:
        c = r.choice(out)
        c["skel"], c["v"] = True, 5
    prog["cus"] = out


def debug(prog, base, far):
    info, ranges = bytearray(), bytearray()
    if not prog.get("cus"):
        return {}
    form = lambda code, tag, *at: bytes([code]) + bytes([tag, 0]) + b"".join(bytes(x) for x in at) + b"\0\0"
    ab = (form(1, 0x11, (3, 8), (0x11, 1), (0x12, 7)) + form(2, 0x11, (3, 8), (0x11, 1), (0x55, 0x17))
          + form(3, 0x4a, (0x76, 8), (0x11, 1), (0x12, 7)) + b"\0")
    for c in prog["cus"]:
        rs = [(up(base, far, lo), up(base, far, hi)) for lo, hi in c["rs"]]
        die = c["name"].encode() + b"\0"
        if c["v"] == 4 and (len(rs) > 1 or len(die) % 2) and not c["skel"]:
            die = b"\2" + die + struct.pack("<QI", 0, len(ranges))
            for x in rs[::-1]:
                ranges += struct.pack("<QQ", *x)
            ranges += bytes(16)
        else:
            if len(rs) > 1:
                c["rs"] = c["rs"][:1]
            die = bytes([3 if c["skel"] else 1]) + die + struct.pack("<QQ", rs[0][0], rs[0][1] - rs[0][0])
        if c["v"] == 4:
            u = struct.pack("<HIB", 4, 0, 8)
        else:
            u = struct.pack("<HBBI", 5, 4 if c["skel"] else 1, 8, 0) + (struct.pack("<Q", 7) if c["skel"] else b"")
        info += struct.pack("<I", len(u) + len(die)) + u + die
    return {".debug_info": bytes(info), ".debug_abbrev": ab, ".debug_ranges": bytes(ranges)}


def elf(prog, base, far, machine=elfgen.X86, bid=""):
    e = elfgen.Elf(machine=machine, etype=elfgen.DYN)
    hi = max([F["addr"] + F["blocks"][-1]["off"] + F["blocks"][-1]["size"] for F in prog["funcs"]] + [64])
    size = up(base, far, hi) - base
    for s in sorted({s["sec"] for s in prog["syms"]} | {".text"}):
        e.section(s, b"\x90" * 16, addr=base, flags=elfgen.A | elfgen.X)
    e.section(".llvm_bb_addr_map", bbmap(prog, base, far), type=elfgen.BB_ADDR_MAP, link=".text")
    for name, data in debug(prog, base, far).items():
        e.section(name, data)
    e.load(0x1000, base & ~0xfff, max(size, 0x1000), flags=5, filesz=0x1000)
    for s in prog["syms"]:
        a = 0 if s["addr"] == 0 and not s["func"] else up(base, far, s["addr"])
        e.symbol(s["name"], a, s["size"], type=2 if s["func"] else 1, bind=1 if s.get("glob", True) else 0, sec=s["sec"])
    if bid:
        e.build_id(bytes.fromhex(bid))
    d = tempfile.mkdtemp(prefix="prop.")
    e.save(d + "/x")
    data = open(d + "/x", "rb").read()
    os.unlink(d + "/x")
    os.rmdir(d)
    return data.hex()


def blocks(r, n, zero=0.15, gaps=0.2, ids=True):
    out, off = [], 0
    order = list(range(1, n))
    if ids and r.random() < .5:
        order = sorted(r.sample(range(1, 3 * n + 1), n - 1))
        if r.random() < .5:
            r.shuffle(order)
    base_id = 0
    for i in range(n):
        size = 0 if r.random() < zero else r.choice([1, 2, 3, 4, 5, 8, 16, 17, 40, 130, 300])
        if i:
            off += r.choice([1, 3, 8]) if r.random() < gaps else 0
        out.append({"id": base_id if i == 0 else order[i - 1], "off": off, "size": size,
                    "ret": r.random() < .25, "tail": r.random() < .1, "eh": i > 0 and r.random() < .15,
                    "ft": r.random() < .7, "ib": r.random() < .1})
        off += size
    return out


def extent(bl):
    return bl[-1]["off"] + bl[-1]["size"]


def program(r, nf=None, nb=6, far=False, odd=True, zero=0.15):
    nf = nf or r.randint(1, 5)
    funcs, syms, at, twins = [], [], 16, set()
    for i in range(nf):
        if far and r.random() < .5:
            at = ((at >> 20) + r.randint(1, 3)) << 20
            at += r.choice([0, 0, 16, 200])
        elif r.random() < .5:
            at += r.choice([0, 0, 1, 16, 100, 1500])
        if funcs and funcs[-1]["addr"] == at:
            at += 1
        bl = blocks(r, r.randint(1, nb), zero)
        # an empty block at the end of an extent shares its address with the
        # next function's entry
        if bl[-1]["size"] == 0 and (len(bl) == 1 or r.random() < .5):
            bl[-1]["size"] = 2
        if funcs and odd and r.random() < .15:
            # a copy of an earlier function, at times with its blocks moved apart
            j = r.randrange(i)
            bl = [dict(b) for b in funcs[j]["blocks"]]
            if len(bl) > 1 and r.random() < .5:
                k, d = r.randrange(1, len(bl)), r.choice([1, 4])
                for b in bl[k:]:
                    b["off"] += d
            twins |= {i, j}
        funcs.append({"addr": at, "blocks": bl})
        at += extent(bl)
    for i, F in enumerate(funcs):
        ext = max(1, extent(F["blocks"]))
        names = ["f%d" % i]
        x = r.random()
        if odd and x < .12:
            continue                                  # no symbol
        if x < .35:
            names += ["alias%d_%d" % (i, k) for k in range(r.randint(1, 2))]
        if odd and .35 < x < .5:
            names = [r.choice(["dup", "dup.__uniq.7"])] + (names if r.random() < .3 else [])
        if i in twins and r.random() < .9:
            names = ["twin.__uniq.3"] + (names if r.random() < .2 else [])
        sec = r.choice(SECS) if r.random() < .5 else ".text"
        for n in names:
            syms.append({"name": n, "addr": F["addr"], "size": ext, "func": True, "sec": sec, "uniq": ".__uniq." in n,
                         "glob": r.random() < .8})
        if odd and r.random() < .15:
            syms.append({"name": "bad%d" % i, "addr": F["addr"], "size": r.choice([0, ext + 1]), "func": True, "sec": sec, "uniq": False, "glob": True})
        if odd and r.random() < .15:
            syms.append({"name": "obj%d" % i, "addr": F["addr"], "size": ext, "func": False, "sec": ".text", "uniq": False, "glob": True})
    if odd:
        r.shuffle(syms)
    syms.sort(key=lambda s: s["glob"])                # local symbols come first in the table
    return {"funcs": funcs, "syms": syms}


def handles(prog, sel=None):
    return [(f, b) for f, F in enumerate(prog["funcs"]) if sel is None or f in sel for b in range(len(F["blocks"]))]


def baddr(prog, h):
    F = prog["funcs"][h[0]]
    return F["addr"] + F["blocks"][h[1]]["off"]


def addresses(prog):
    """Interesting addresses: starts, ends, middles, just outside."""
    s = set()
    for F in prog["funcs"]:
        for b in F["blocks"]:
            a = F["addr"] + b["off"]
            s |= {a - 1, a, a + 1, a + b["size"] - 1, a + b["size"], a + b["size"] + 1, a + b["size"] // 2}
    return sorted(x for x in s if x > 0)


def counters(r, prog, n, bad=0.1, cap=8):
    """Branches and fall-throughs, each pair once."""
    ads = addresses(prog)
    hs = handles(prog)
    ends, starts, entries = [], [], []
    for f, b in hs:
        x = prog["funcs"][f]["blocks"][b]
        a = baddr(prog, (f, b))
        starts.append(a)
        if b == 0:
            entries.append(a)
        if x["size"]:
            ends.append(a + x["size"] - 1)
    ends = ends or [1]
    br, ft = {}, {}

    def frm():
        return r.choice(ads) if r.random() < bad else r.choice(ends)
    for _ in range(n):
        to = r.random()
        t = (r.choice(ads) if to < bad else r.choice(entries) if to < .3 else
             r.choice(starts) if to < .85 else r.choice(ads))
        br[(frm(), t)] = r.randint(1, cap)
    for _ in range(n):
        i = r.randrange(len(hs))
        j = min(len(hs) - 1, i + r.choice([0, 1, 1, 2, 3, 5])) if r.random() < .9 else r.randrange(len(hs))
        f, b = hs[j]
        a = baddr(prog, hs[i]) if r.random() < .9 else r.choice(ads)
        e = baddr(prog, hs[j]) + max(0, prog["funcs"][f]["blocks"][b]["size"] - 1) if r.random() < .9 else frm()
        ft[(a, e)] = r.randint(1, cap)
    pairs = lambda m: [[a, b, c] for (a, b), c in m.items()]
    return pairs(br), pairs(ft)


def start(r, prog, far=False, unit=None, base=None, machine=elfgen.X86, bid=""):
    base = base if base is not None else r.choice(BASES[:5] if far else BASES)
    return {"unit": unit or 1, "base": hex(base), "far": far, "elf": elf(prog, base, far, machine, bid), "prog": prog, "ops": []}


# ---- graphs ---------------------------------------------------------------
def sane(r, prog, br, ft):
    """Keeps the branches of a run that is not mostly drift (the mapper must
    accept): callers that want rejections do not use it."""
    return br, ft


def graph(r, nf, nb, dens, cap, eh=0.1, secs=(".text",), shape="any", far=False, names=True, back=False, mul=1):
    """A control-flow graph of the shape graphs are built in: jumps within a
    function and not into its entry, calls to entries, returns from return
    blocks to call sites."""
    cfgs, at = [], 0
    fidx = sorted(r.sample(range(0, 3 * nf), nf))
    for i, f in enumerate(fidx):
        n = r.randint(1, nb)
        bl = blocks(r, n, zero=.1, gaps=.1)
        m = r.choice([1, mul])
        for b in bl:
            b["off"], b["size"] = b["off"] * m, b["size"] * m
        nodes = []
        if far and r.random() < .5:
            at = ((at >> 20) + 1) << 20
        for b in bl:
            nodes.append({"addr": at + b["off"], "id": b["id"], "size": b["size"], "ret": b["ret"], "tail": b["tail"],
                          "eh": b["eh"] and r.random() < eh * 6, "ft": b["ft"], "ib": b["ib"]})
        at += extent(bl) + r.choice([0, 0, 16, 700])
        nm = ["fn%d" % f] + (["al%d" % f] if names and r.random() < .3 else [])
        cfgs.append({"f": f, "names": nm, "sec": r.choice(secs), "mod": r.choice(["-", "-", "m%d.cc" % f]), "nodes": nodes})
    edges = {}
    hot = [c for c in cfgs if r.random() < .85] or cfgs
    for c in hot:
        n = len(c["nodes"])
        live = sorted(r.sample(range(n), r.randint(1, n)))
        if 0 not in live and r.random() < .8:
            live = [0] + live
        for i, b in enumerate(live):
            outs = r.choice([0, 1, 1, 1, 2, 2, 3]) if shape == "any" else 1
            if shape == "chain":
                t = live[i + 1] if i + 1 < len(live) else r.choice(live)
                tg = [t]
            elif shape == "loop":
                tg = [live[(i + 1) % len(live)]]
                if r.random() < .3:
                    tg.append(r.choice(live))
            else:
                tg = [r.choice(live) if r.random() < .5 else live[min(i + 1, len(live) - 1)] for _ in range(outs)]
            for t in tg:
                if t == 0 and not back:
                    continue
                edges[(c["f"], b, c["f"], t)] = (r.randint(1, cap), "B")
    for _ in range(int(dens * nf * 2)):
        a, b = r.choice(hot), r.choice(cfgs)
        s = r.randrange(len(a["nodes"]))
        if a["f"] == b["f"] and (a["f"], s, b["f"], 0) in edges:
            continue
        edges[(a["f"], s, b["f"], 0)] = (r.randint(1, cap), "C")
        if r.random() < .6 and a is not b:
            x = r.randrange(len(b["nodes"]))
            k = (b["f"], x, a["f"], s)
            if k not in edges and not (s == 0):
                edges[k] = (r.randint(1, cap), "R")
    if r.random() < .1 and edges:
        k = r.choice(sorted(edges))
        if edges[k][1] == "B":
            pass
    es = [[k[0], k[1], k[2], k[3], v[0], v[1]] for k, v in edges.items()]
    r.shuffle(es)
    return {"op": "given", "cfgs": cfgs, "edges": es}


def fits(g, unit):
    """Whether the executions at every block fit the graph's 32-bit counts."""
    tot = {}
    for e in g["edges"]:
        for k in ((0, e[0], e[1]), (1, e[2], e[3])):
            tot[k] = tot.get(k, 0) + e[4]
    return max(tot.values(), default=0) * unit < 1 << 31


PARAMS = {"ftw": 10, "fww": 1, "bww": 1, "fwd": 1024, "bwd": 680, "split": True, "thr": 0, "ccc": True, "cms": 2097152,
          "sf": True, "rhb": True, "inter": False}
# powers of two keep every score exact, so that equal gains are equal
DIST = [(1024, 512, 1024), (64, 64, 64), (256, 128, 256), (16, 32, 32), (1024, 2, 1024), (4, 512, 512)]


def params(r, exact=True):
    p = dict(PARAMS)
    if exact:
        p["fwd"], p["bwd"], scale = r.choice(DIST)
    else:
        scale = 1024 * 85
    if r.random() < .5:
        p["ftw"], p["fww"], p["bww"] = r.choice([10, 1, 3, 20]), r.choice([1, 2, 0]), r.choice([1, 2, 0])
    p["split"] = r.random() < .85
    p["thr"] = r.choice([0, 1, 3, 8, 128])
    p["ccc"] = r.random() < .7
    p["cms"] = r.choice([2097152, 64, 300])
    p["sf"] = r.random() < .7
    p["rhb"] = r.random() < .8
    p["inter"] = r.random() < .4
    return p, scale


class PropCheck(vf.Check):
    harness = ("prop", build.ALL + ["h:prop.cc"])
    trace = "PropTrace"
    again = ()          # events a second run, fed in reverse order, must repeat
    mem = "3g"
    level_note = ("The laws of the property are checked by TLC on every small program or graph the specification can grow; the real code's "
                  "results (selection, lookups, graphs, chain merges, clusters, layouts, files) are validated by TLC step by step against the same operators.")
    assumptions = ["the executions at every block and edge fit the graph's 32-bit counts"]
    n_quick, n_thorough = 160, 3000

    def one(self, r):
        raise NotImplementedError

    def scripts(self, rng, tier):
        out = []
        for i in range(self.n_quick if tier == "quick" else self.n_thorough):
            out.append(self.one(rng))
        return out

    def run_harness(self, exe, scripts, tag, env=None):
        import json
        path = super().run_harness(exe, scripts, tag, env)
        if not self.again:
            return path
        other = super().run_harness(exe, scripts, tag + ".again", dict(env or {}, VH_REV="1"))

        def split(p):
            res = []
            for line in open(p):
                e = json.loads(line)
                if e["e"] == "Reset":
                    res.append([])
                res[-1].append(e)
            return res
        a, b = split(path), split(other)
        with open(path, "w") as f:
            for x, y in zip(a, b):
                p = [[e for e in z if e["e"] in self.again] for z in (x, y)]
                for e in x:
                    f.write(json.dumps(e) + "\n")
                f.write(json.dumps({"e": "Again", "sid": x[0]["sid"], "same": p[0] == p[1]}) + "\n")
        return path


# ---- behaviours of the specification --------------------------------------
def graph_ops(b):
    cfgs = [{"f": i, "names": ["f%d" % i], "sec": ".text", "mod": "-", "nodes": n} for i, n in enumerate(b["nodes"])]
    return [{"op": "given", "cfgs": cfgs, "edges": b["edges"]}, {"op": "scale", "n": b["scale"]}]


def conv_graph(*ops):
    """A grown graph, then what a property does with it."""
    def conv(b):
        s = {"unit": 1, "base": "0x400000", "ops": graph_ops(b)}
        for o in ops:
            s["ops"].append(dict(o, params=b["p"]) if o["op"] in ("chain", "cluster", "layout") else dict(o))
        return s
    return conv


def conv_cfg(*ops):
    """A program and counters added one by one."""
    def conv(b):
        p = b["prog"]
        r = __import__("random").Random(len(b["br"]) * 31 + p["funcs"][-1]["addr"])
        s = start(r, p)
        q = addresses(p)
        n = len(handles(p))
        for o in ops:
            if o == "build":
                s["ops"].append({"op": "build", "br": b["br"], "ft": b["ft"]})
            elif o == "find":
                s["ops"].append({"op": "find", "q": [[a, d] for a in q for d in "FT"]})
            elif o == "fall":
                s["ops"].append({"op": "fall", "q": [[i, j] for i in range(n) for j in range(n)]})
            elif o == "kind":
                s["ops"].append({"op": "kind", "q": [[r.randint(-1, n), r.randrange(n), r.choice(q)] for _ in range(40)]})
            else:
                s["ops"].append({"op": o, "filter": True})
        return s
    return conv


GRAPHS = [("GraphGen", "GraphGen1", 60, 60), ("GraphGen", "GraphGen2", 60, 60), ("GraphGen", "GraphGen3", 60, 60)]


def graph_gens(scale, *ops):
    return [(m, c, n * scale, d, conv_graph(*ops)) for m, c, n, d in GRAPHS]


def cfg_gens(scale, *ops):
    return [("CfgGen", "CfgGen", 150 * scale, 14, conv_cfg("mapper", *ops))]
