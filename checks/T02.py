import re
import dwarfgen as dg, profgen, symgen
from profgen import *
import T01

TYPES = ["t0", "nta", "t1", "prefetchnta2"]
LN = [10, 10, 11, 12, 13, 15, 20, 8, 110]
RAW = [0, 0, 0, 1, 2, 120] + [symgen.discriminator(b, d) for b, d in ((0, 2), (1, 3), (3, 33), (40, 2))]


class Check(T01.Check):
    pid = "T02"
    tools = ("create_llvm_prof", "create_gcov")
    level_note = ("TLC checks on every small binary and run that the computed profile conserves and bounds the sampled counts (P10's model); "
                  "the built tools are run on binaries with symbols and debug information written by the check, on sample files, recordings and "
                  "prefetch hints, with random flags; the files they leave, read back, are judged by CreateTool of ProfTrace.tla.")
    assumptions = ["debug information resolves as property D01 says (the stacks are read with the same library)",
                   "the perf.data container parser (quipper) is replaced by a stand-in",
                   "LLVM's own profile library reads and writes its formats correctly"]

    @property
    def mc(self):
        return [("SymMC", "P10MC", 4)]

    @property
    def mc_thorough(self):
        return [("SymMC", "P10MC_big", 6)]

    def count(self):
        return 250 if self.tier == "quick" else 5000

    def binary(self, r, gcov):
        """A binary with symbols and debug information: b as symgen has it."""
        p = dg.program(r)
        raws = [x for x in r.choice([RAW, [0, 1, 2]]) if not gcov or x < 65536]
        for d in p.dies:
            d["decl"] = d["decl"] and r.choice([10, 10, 10, 9, 70000])
            d["cl"] = d["cl"] and r.choice(LN)
            d["cx"] = r.choice(raws)
        for s in p.seqs:
            for w in s["rows"]:
                w[2] = w[2] and r.choice(LN)
                w[3] = r.choice(raws)
        b = symgen.Bin()
        b.mode, b.bits, b.fs, b.text = "exec", 64, False, []
        b.base = first = r.choice([0x400000, 0x555555554000])
        lead = r.choice([0, 0, 0x20, 0x1000])
        base = first + lead
        b.funcs, b.syms, taken = [], [], set()
        for i, d in enumerate(p.dies):
            if d["k"] != "sub" or not d["rs"]:
                continue
            o, nm = d, ""
            while not nm:
                nm = o["link"] or o["name"]
                if not (o["og"] or o["sp"]):
                    break
                o = p.dies[(o["og"] or o["sp"]) - 1]
            if not nm or nm in taken or r.random() < .1:
                nm = r.choice(["a", "b", "main", "zz"]) + str(i)
            if r.random() < .15:
                nm += r.choice([".llvm.77", ".llvm.5", ".isra.0"])
            taken.add(nm)
            for j, (lo, hi) in enumerate(d["rs"]):
                s = nm if j == 0 else nm + r.choice([".cold", ".cold", ".__part.%d" % j])
                if s in {x[2] for x in b.funcs}:
                    s = "%s.__part.%d" % (nm, 9 + j)
                b.funcs.append([lead + lo, hi - lo, s])
        b.funcs.sort()
        if r.random() < .3 and len(b.funcs) > 1:   # one without a symbol
            b.funcs.pop(r.randrange(len(b.funcs)))
        for a, z, nm in b.funcs:
            b.syms.append({"name": nm, "a": a, "z": z, "fn": True, "k": symgen.kind(nm)})
            if r.random() < .2:
                b.syms.append({"name": "al%d" % a, "a": a, "z": z, "fn": True, "k": ""})
        if r.random() < .1:
            b.fs = True
            b.syms.append({"name": symgen.FS, "a": lead + p.end + 100, "z": 1, "fn": False, "k": "fs"})
        b.segs = [[4096, 0, lead + p.end]]
        b.phs = [(True, True, 4096, 0, lead + p.end)]
        b.bid = r.choice(["", "", "abcdef0123456789", "00ff" * 10])
        b.names = {d[k] for d in p.dies for k in ("name", "link")}

        def more(elf):
            for y in b.syms:
                elf.symbol(y["name"], first + y["a"], y["z"], type=2 if y["fn"] else 0, bind=1)
            if b.bid:
                elf.build_id(bytes.fromhex(b.bid))
        b.elf = dg.write(p, base, 8, r.choice([dg.elfgen.EXEC, dg.elfgen.DYN]), first, more).hex()
        b.discs = [[x, symgen.base_of(x), symgen.dup_of(x)] for x in sorted(set(raws) | {0})]
        return b

    def text(self, q, unit):
        h = lambda x: "%x" % x
        L = ["%d" % len(q["rg"])] + ["%s-%s:%d" % (h(k[0]), h(k[1]), n * unit) for k, n in q["rg"]]
        L += ["%d" % len(q["ad"])] + ["%s:%d" % (h(k), n * unit) for k, n in q["ad"]]
        L += ["%d" % len(q["br"])] + ["%s->%s:%d" % (h(k[0]), h(k[1]), n * unit) for k, n in q["br"]]
        return "\n".join(L) + "\n"

    def recording(self, r, b, x, f, uns):
        pad = x.bid and (x.bid + "0" * 40)[:40]
        other = "ab" * 20
        own = {"name": ["", "bin", "@"], "bid": pad if r.random() < .9 else ""}
        maps = [dict(own, start=0x10000, len=x.segs[0][2], pgoff=x.segs[0][0])]
        for i in range(r.choice([0, 1, 1, 2])):
            n = r.choice([["", "lib", "libc.so"], ["", "x", "y@"], ["", "tmp", "@.old"], ["", "usr", "@"], ["[vdso]"], ["@"]])
            if n in [m["name"] for m in maps]:
                continue
            bid = r.choice(["", other, pad]) if r.random() < .5 else ""
            maps.append({"name": n, "bid": bid, "start": 0x20000 + 0x10000 * i, "len": x.segs[0][2] + 50, "pgoff": 4096})
        rx = r.choice(["libc", "/bin/", "y", "nothing", "lib.*so$"]) if r.random() < .15 else ""

        def shown(n):
            return "/".join(n).replace("@", "1234.bin")
        for m in maps:
            m["sel"] = bool(rx) and re.search(rx, shown(m["name"])) is not None
            ids = [k["name"] for k in maps if k["bid"] == pad]
            m["own"] = m["sel"] if rx else (m["name"] in ids if x.bid else len(m["name"]) > 1 and m["name"][-1] == "@")
        samples = []
        starts = [a for a, z, _ in x.funcs]

        def addr():
            m = maps[0] if r.random() < .85 else r.choice(maps)
            if m is maps[0]:
                a, z, _ = r.choice(x.funcs)
                return m["start"] + (a if r.random() < .5 else a + r.randrange(z))
            return m["start"] + r.randrange(m["len"])
        for _ in range(r.randint(0, 6)):
            stack, to = [], addr()
            for _ in range(r.choice([0, 1, 3, 6])):   # oldest first
                fr = addr()
                stack.insert(0, [fr, to] if not stack else [to + r.choice([0, 1, 3, 8]), to])
                to = addr()
                stack[0][1] = to
            samples.append({"ip": addr(), "n": r.choice([1, 1, 2, 12]), "ts": r.choice([1, 3, 50, 77]), "stack": stack})
        b.op(op="record", file=f, maps=maps, samples=samples, bid=pad, re=bool(rx))
        return ["--focus_binary_re=" + rx] if rx else []

    def one(self, r):
        gcov = r.random() < .35
        x = self.binary(r, gcov)
        if not x.funcs:
            return self.one(r)
        kind = r.choice(["text", "text", "text", "hints", "record", "record"])
        unit = r.choice([1, 1, 1, 7 * 64, 1 << 31]) if kind == "text" else 1
        b = B(r, ["a", "b"], unit)
        pol = r.choice(["selected", "selected", "all", "none"])
        enc = not gcov or r.random() < .3
        b.more |= x.names
        uns = r.random() < .2
        symgen.newbin(b, 0, x, pol)
        b.ops[-1]["unstripped"] = uns
        b.op(op="srcs", m=0, enc=enc, discs=x.discs, **{"as": [a + i for a, z, _ in x.funcs for i in range(z)]})
        floor = 10 if unit == 1 else 0
        for _ in range(r.choice([1, 1, 2])):
            f = b.file()
            args, mode = [], "lbr"
            if kind == "hints":
                hs = []
                for _ in range(r.randint(1, 12)):
                    a, z, _ = r.choice(x.funcs)
                    v = a + r.randrange(z) if r.random() < .9 else r.choice([a + z, x.segs[0][2] + 50])
                    if hs and r.random() < .3:
                        v = hs[-1][0]
                    hs.append([v, r.choice([0, 1, 64, 1024, 100000]), r.choice(TYPES)])
                b.op(op="put", file=f, k="hints", hints=hs,
                     text="".join("%x,%d,%s\n" % (x.base + v, d, t) for v, d, t in hs))
                b.more |= {"__prefetch_%s_%d" % (t, i) for t in TYPES for i in range(len(hs))}
                prof = "prefetch"
            elif kind == "record":
                args += self.recording(r, b, x, f, uns)
                prof = "perf"
                mode = r.choice(["lbr", "lbr", "lbr", "addr"])
            else:
                mode = r.choice(["lbr", "lbr", "lbr", "addr", "llc"]) if unit == 1 else r.choice(["lbr", "lbr", "addr"])
                q = symgen.run(r, x, mode, cap=r.choice([5, 20, 300]))
                q["ts"] = []
                t = self.text(q, unit)
                k = "run"
                if r.random() < .06:
                    k, t = "bad", r.choice([t[:-2] if t.count("\n") > 3 and t[-2:] != "\n" and len(q["br"]) == 0 else "x", "", "2\n1-2:3\n", "0\n1\n"])
                b.op(op="put", file=f, k=k, text=t, **q)
                if not q["ad"] and not q["rg"] and not q["br"]:
                    pass
                prof = "text"
            a = r.choice([0, 0, 1, 8]) if floor else 0
            out = b.file()
            args += ["--profiler=" + prof, "--binary=@{bin%s}" % (".unstripped" if uns else "")]
            if a or r.random() < .2:
                args.append("--sample_threshold_frac=%r" % (a / 64))
            if pol != "selected" or r.random() < .2:
                args.append("--suffix_elision_policy=" + pol)
            if mode != "lbr":
                args += ["--use_lbr=false"] if mode == "addr" else ["--llc_misses"] + r.choice([[], ["--use_lbr=false"]])
            wrong, src = False, f
            if r.random() < .04:
                src = "none"
            o = dict(op="tool", m=0, ins=[src], file=out, floor=floor, a=a, mode=mode, pol=pol)
            args.append("--profile=@{%s}" % src)
            if gcov:
                ver = r.choice([1, 2, 2, 3])
                args += ["--gcov_version=%d" % ver, "--gcov=@{%s}" % out]
                if enc:
                    args.append("--use_discriminator_encoding")
                if r.random() < .03:
                    wrong, args = True, [y if not y.startswith("--profiler") else "--profiler=prof" for y in args]
                r.shuffle(args)
                b.op(tool="create_gcov", args=args, ver=ver, wrong=wrong, fmt="", symlist=False, **o)
                if not wrong and src == f and kind != "bad" and not b.ops[-2].get("k") == "bad":
                    b.new(5, "none")
                    b.op(op="readgcc", m=5, file=out, force=r.random() < .5, gap=gap(unit))
                    b.op(op="times", m=5)
                    if floor:
                        b.op(op="getws", m=5)
                continue
            o["fmt"] = r.choice(["text", "binary", "extbinary", "extbinary"]) if r.random() < .96 else r.choice(["other", "ext"])
            o["symlist"] = r.random() < (.5 if o["fmt"] == "extbinary" else .04)
            o["cov"] = 64
            if o["symlist"]:
                args.append("--prof_sym_list")
                if r.random() < .4:
                    o["cov"] = r.choice([0, 16, 32, 48, 63])
                    args.append("--symbol_list_size_coverage_ratio=%r" % (o["cov"] / 64))
                if r.random() < .3:
                    args.append("--compress_symbol_list=" + r.choice(["true", "false"]))
            if o["fmt"] != "text" or r.random() < .3:
                args.append("--format=" + o["fmt"])
            k = r.random()
            if k < .6:
                args.append("--out=@{%s}" % out)
            elif k < .85:
                args.append("--gcov=@{%s}" % out)
            elif k < .95:
                args += ["--out=@{%s}" % out, "--gcov=@{%s}" % out]
            elif k < .97:
                args += ["--out=@{%s}" % out, "--gcov=@{%s}x" % out]
                wrong = True
            else:
                wrong = True
            if r.random() < .05:
                wrong = True
                w = r.choice(["ign", "semi", "at", "profiler", "binary"])
                if w == "ign":
                    args.append("--ignore_build_id")
                elif w in ("semi", "at"):
                    args = [y.replace("--profile=@", "--profile=@@" if w == "at" else "--profile=@{none};@") if y.startswith("--profile=") else y for y in args]
                elif w == "profiler":
                    args = [y if not y.startswith("--profiler=") else "--profiler=lbr" for y in args]
                else:
                    args = [y if not y.startswith("--binary=") else "--binary=@{gone}" for y in args]
            r.shuffle(args)
            b.op(tool="create_llvm_prof", want="llvm", args=args, ver=0, wrong=wrong, **o)
        return b.script()
