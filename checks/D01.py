import build, vf
import dwarfgen as dg

OWN = [(s, []) for s in ("legacy_addr2line.cc util/symbolize/addr2line_inlinestack.cc util/symbolize/bytereader.cc "
                         "util/symbolize/functioninfo.cc util/symbolize/dwarf2reader.cc util/symbolize/dwarf3ranges.cc "
                         "util/symbolize/elf_reader.cc util/symbolize/index_helper.cc").split()]
NOLLVM = ["-isystem", "/usr/lib/llvm-20/include"]
KEYS = ("cu", "inl", "up", "name", "link", "sp", "og", "decl", "rs", "cf", "cl", "cx")


class Check(vf.Check):
    pid = "D01"
    trace = "DwarfTrace"
    level_note = ("TLC checks on every small program, entered in every order, that a reader's maps of ranges and of lines answer "
                  "what Dwarf.tla says an address resolves to. The check writes random programs (nested inlined calls, split and "
                  "dead functions, declarations elsewhere) as DWARF 2 to 5 in random encodings; both readers, the repository's own "
                  "and the LLVM-based one, answer random sets of addresses in random orders, and TLC judges every answer by "
                  "Dwarf.tla.")
    assumptions = ["the debug information is well formed: inlined code lies within its caller's, functions do not overlap",
                   "type units, compressed sections, DWARF 5 packages (.dwp), and split DWARF 4 units beside DWARF 5 ones are not generated"]
    mc = [("DwarfMC", "D01MC", 2), ("DwarfMC", "D01Lines", 2)]
    mc_thorough = [("DwarfMC", "D01MC_big", 6), ("DwarfMC", "D01Lines_big", 6)]

    def build_harness(self):
        return (build.build("addr_own", OWN + [("h:addr.cc", NOLLVM)], []),
                build.build("addr_llvm", ["addr2line.cc", "source_info.cc", "h:addr.cc"]))

    def run_harness(self, exe, scripts, tag, env=None):
        out = [super(Check, self).run_harness(e, scripts, "%s.%d" % (tag, i), env) for i, e in enumerate(exe)]
        with open(out[0], "a") as f:
            f.write(open(out[1]).read())
        return out[0]

    def one(self, r):
        p = dg.program(r, split=r.random() < .3)
        width = r.choice([8, 8, 8, 4])
        base = r.choice([0x1000, 0x400000, 0x8048000] + ([0x555555554000, 0xffffffff81000000] if width == 8 else []))
        etype = r.choice([dg.elfgen.EXEC, dg.elfgen.DYN])
        first = r.choice([base, base - 0x1000])
        elf = dg.write(p, base, width, etype, first)
        edges = {0, 1, p.end, p.end + 1, p.end + 9}
        for d in p.dies:
            for lo, hi in d["rs"]:
                edges |= {lo - 1, lo, hi - 1, hi}
        for s in p.seqs:
            for w in s["rows"]:
                edges |= {w[0] - 1, w[0]}
            edges |= {s["end"] - 1, s["end"]}
        edges = sorted(a for a in edges if a >= 0)
        if len(edges) > 60:
            edges = sorted(r.sample(edges, 60))
        edges += [r.randint(0, p.end) for _ in range(8)]
        ops = [dict(op="open", elf=elf.hex(), dwos=[x.hex() for x in p.dwos], files=p.files, comps=[c["comp"] for c in p.cus], seqs=p.seqs,
                    dies=[dict({k: d[k] for k in KEYS if k in d}, cu=d["cu"] + 1, inl=d["k"] == "inl") for d in p.dies])]
        looks = [edges, [r.choice(edges) for _ in range(r.randint(0, 12))]]
        r.shuffle(edges)
        r.shuffle(looks)
        for x in looks:
            ops.append(dict(op="look", **{"as": x}))
        if r.random() < .3:
            ops += [ops[0], dict(op="look", **{"as": sorted(r.sample(edges, min(len(edges), 10)))})]
        return {"ops": ops, "base": hex(base)}

    def scripts(self, rng, tier):
        return [self.one(rng) for _ in range(getattr(self, "n_quick", 1000) if tier == "quick" else 6000)]
