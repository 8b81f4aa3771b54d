import build, elfgen, os, struct, vf

MINE = ["", "usr", "bin", "prog"]
OTHER = [["", "lib", "ld.so"], ["", "usr", "bin", "progx"], ["", "usr", "bin", "xprog"], ["", "prog", "lib.so"], ["[vdso]"]]


class Check(vf.Check):
    pid = "S05"
    harness = ("S05", build.ALL + ["h:S05.cc"])
    trace = "S05Trace"
    mc = [("S05MC", "S05MC", 3)]
    mc_thorough = [("S05MC", "S05MC_big", 7)]
    level_note = ("Inverse of the loader is model-checked over segment layouts and bases; generated ELF files, recordings, "
                  "stacks and records are run through the real reader and every selected mapping, translated address and table validated by TLC.")
    assumptions = ["the perf.data container parser (quipper) is replaced by a stand-in",
                   "wanted names are all absolute or all relative (the command line gives one)"]

    def base(self, pie):
        r = self.rng
        s = {"rbase": str(r.choice([0, 2**32, 2**47 - 2**25])), "vbase": str(r.choice([0, 2**22, 2**40])),
             "fbase": str(r.choice([0, 0, 4096, 2**33])), "pie": pie}
        return s

    def conv(self, b):
        r = self.rng
        s = self.base(True)
        s["segs"] = [{k: g[k] for k in ("off", "va", "size")} for g in b["all"] if g["x"]]
        evs = [dict(e, has=True) for e in b["evs"]]
        s["loads"] = [self.load(s, evs, [["prog"]], [])]
        return s

    @property
    def gens(self):
        return [("S05Gen", "S05Gen", 60 if self.tier == "quick" else 1500, 6, self.conv)]

    def load(self, s, evs, names, ids, reach=64):
        r = self.rng
        pids = sorted({e["pid"] for e in evs}) or [1]
        pts = sorted({x + d for e in evs for x in (e["start"], e["start"] + e["len"]) for d in (-1, 0, 1)} |
                     {e["start"] - e["pgoff"] + g["off"] + d for e in evs for g in s["segs"] for d in (-1, 0, g["size"] - 1, g["size"])} |
                     {e["start"] + r.randrange(e["len"] + 1) for e in evs})
        pts = [p for p in pts if p >= 0] or [0]
        pick = lambda: r.choice(pts)
        L = {"evs": evs, "names": names, "ids": ids, "direct": r.random() < .3, "rounds": r.choice([1, 1, 1, 3])}
        L["queries"] = [{"pid": p, "q": r.sample(pts, min(len(pts), 25))} for p in pids + [77]]
        L["samples"] = []
        for _ in range(r.randint(0, 6)):
            st = []
            for _ in range(r.choice([0, 1, 2, 4, 8])):
                if st and r.random() < .2:
                    st.append(list(r.choice(st)))
                else:
                    st.append([pick(), pick()])
            L["samples"].append({"pid": r.choice(pids + [77]), "has": r.random() < .9, "stack": st})
        upids = [p for p in pids if p > 0] or [5]
        L["recs"] = [{"pid": r.choice(upids + [78]), "from": pick(), "to": pick(), "retired": r.random() < .85,
                      "branch": r.random() < .85, "cond": r.random() < .6, "nottaken": r.random() < .4}
                     for _ in range(r.randint(0, 12))]
        return L

    def events(self, s, kernel=False):
        r = self.rng
        evs = []
        for p in ([-1] + ([4] if r.random() < .3 else []) if kernel else r.sample([1, 2, 3, 9], r.randint(1, 3))):
            b = r.randrange(3000)
            for _ in range(r.randint(1, 4)):
                e = {"pid": p, "start": b, "len": r.choice([1, 8, 64, 300]), "pgoff": r.choice([0, 0, 8, 64, 200, 256]),
                     "name": list(["[kernel.kallsyms]_text"] if kernel else MINE), "has": True}
                x = r.random()
                if x < .15:
                    e["name"] = r.choice(OTHER)
                elif x < .2:
                    e["name"] = r.choice([["prog"], ["", "opt", "prog"], ["[kernel.kallsyms]"], ["[kernel.kallsyms]_stext"]])
                elif x < .24:
                    e["has"] = False
                    e["miss"] = r.choice(["pid", "start", "len", "name"])
                evs.append(e)
                if r.random() < .3:
                    evs.append(dict(e))
                elif r.random() < .03:
                    evs.append(dict(e, pgoff=e["pgoff"] + 8))  # not the same one
                b += e["len"] + r.choice([0, 0, 16, 100])
                if r.random() < .04:
                    b -= r.randint(1, 20)
                    b = max(b, 0)
                if e["name"] in OTHER and r.random() < .5:
                    b -= 3  # may overlap another binary's
                    b = max(b, 0)
        r.shuffle(evs)
        return evs

    def segs(self):
        r = self.rng
        out, off, va = [], r.choice([0, 0, 8, 64]), r.choice([0, 8, 64, 1000])
        for _ in range(r.choice([1, 1, 2, 3])):
            z = r.choice([1, 8, 60, 200])
            out.append({"off": off, "va": va, "size": z})
            off += z + r.choice([0, 0, 4, 60])
            va += z + r.choice([0, 4, 500])
        if r.random() < .1:
            out[-1]["off"] = out[0]["off"]  # both hold the position: the first one counts
        return out

    def scripts(self, r, tier):
        out = []
        for _ in range(220 if tier == "quick" else 5000):
            kernel = r.random() < .2
            s = self.base(r.random() < .75 and not kernel)
            s["segs"] = self.segs()
            s["bid"] = r.choice(["", "abcd12", "00ff"])
            s["loads"] = []
            for _ in range(r.choice([1, 1, 2])):
                names, ids = self.wanted(kernel, s["bid"])
                s["loads"].append(self.load(s, self.events(s, kernel), names, ids))
            out.append(s)
        for i in range(110 if tier == "quick" else 2500):
            out.append(self.elf(i))
        for _ in range(40 if tier == "quick" else 800):
            out.append({"modinfo": [self.modinfo() for _ in range(6)]})
        return out

    def wanted(self, kernel, bid):
        r = self.rng
        x = r.random()
        if kernel:
            names = [["[kernel.kallsyms]"]]
        elif x < .45:
            names = [r.choice([["prog"], MINE, ["bin", "prog"]])]
        elif x < .55:
            names = [MINE, ["", "opt", "prog"]] if r.random() < .5 else [["prog"], ["x", "progx"]]
        elif x < .6:
            names = [["nosuch"]]
        else:
            names = []
        ids = []
        for _ in range(r.randint(0, 4) if names else r.choice([0, 1, 2, 4])):
            n = r.choice([MINE, MINE, ["", "opt", "prog"], ["", "lib", "ld.so"], ["", "anon_hugepage (deleted)"], ["[anon:heap]"], [""],
                          ["", "usr", "bin", "progx"]])
            ids.append({"name": list(n), "id": r.choice([bid or "77", bid or "77", "abcd12", "abcd1234", "1234"]),
                        "anon": n[-1].startswith(("anon_hugepage", "[anon:"))})
        return names, ids

    def modinfo(self):
        r = self.rng
        pairs, raw, ok, seen = [], b"", True, set()
        n = r.randint(0, 4)
        for _ in range(n):
            k = r.choice(["name", "description", "k", "v1", "license"])
            v = r.choice(["x", "a=b", "GPL v2", "=", "", "long" * 5])
            bad = r.random()
            if bad < .04:
                raw, ok = raw + k.encode() + b"\0", False
            elif bad < .08:
                raw, ok = raw + b"=" + v.encode() + b"\0", False
            elif bad < .12:
                raw += k.encode() + b"=\0"  # as "depends=" of real modules
                if k not in seen:
                    seen.add(k)
                    pairs.append([k, ""])
            else:
                raw += k.encode() + b"=" + v.encode() + b"\0" * r.choice([1, 1, 2, 5])
                if k not in seen:
                    seen.add(k)
                    pairs.append([k, v])
        if n == 0:
            ok = False
        elif r.random() < .05:
            raw, ok = b"\0" + raw, False
        elif r.random() < .06:
            raw, ok = raw.rstrip(b"\0"), False
        return {"hex": raw.hex(), "info": {"wellformed": ok, "pairs": pairs if ok else []}, "raw": raw.hex()}

    def elf(self, i):
        r = self.rng
        et = r.choice(["DYN", "DYN", "EXEC", "REL"])
        s = {"rbase": "0", "vbase": "0", "fbase": "0", "file": "prog"}
        e = elfgen.Elf(r.choice([elfgen.X86, elfgen.ARM64]), {"DYN": elfgen.DYN, "EXEC": elfgen.EXEC, "REL": elfgen.REL}[et])
        made = {"etype": et, "ph": [], "notes": [], "ko": True, "linkonce": True,
                "text": {"has": True, "off": 0, "va": 0, "size": 0}, "info": {"wellformed": True, "pairs": []}}
        notes = []
        for _ in range(r.choice([0, 1, 1, 2])):
            n = {"sec": r.choice([".note.gnu.build-id", ".note.gnu.build-id", ".notes", ".note.other"]),
                 "owner": r.choice(["GNU", "GNU", "Xen"]), "id": r.choice(["abcd12ef", "00ff00ff", "0123456789abcdef"]),
                 "note": r.random() < .9}
            notes.append(n)
            raw, ow = bytes.fromhex(n["id"]), n["owner"].encode() + b"\0"
            data = struct.pack("<III", len(ow), len(raw), 3) + ow + raw
            e.section(n["sec"], data, type=elfgen.NOTE if n["note"] else elfgen.PROGBITS, flags=elfgen.A, align=4)
        # one section may hold several notes: owners other than GNU first
        made["notes"] = notes
        segs = []
        if et == "REL":
            s["file"] = r.choice(["mod.ko", "mod.ko", "mod.ko", "mod.o"])
            made["ko"] = s["file"].endswith(".ko")
            if r.random() < .5:
                e.section(".text.other", b"\x90" * 8, flags=elfgen.A | elfgen.X, align=4)
            if r.random() < .5:
                e.section(".text", b"\x90" * 8, flags=elfgen.A)  # not executable
            has = r.random() < .9
            z = r.choice([4, 40, 100])
            made["text"] = {"has": has, "off": 0x400, "va": r.choice([0, 0, 64]), "size": z}
            if has:
                e.section(".text", b"\x90" * z, addr=made["text"]["va"], flags=elfgen.A | elfgen.X, offset=0x400)
            made["linkonce"] = r.random() < .9
            if made["linkonce"]:
                e.section(".gnu.linkonce.this_module", b"\0" * 16, flags=elfgen.A | elfgen.W)
            mi = self.modinfo()
            made["info"] = mi["info"]
            e.section(".modinfo", bytes.fromhex(mi["raw"]), flags=elfgen.A)
            if has:
                segs = [{"off": 0x400, "va": made["text"]["va"], "size": z}]
        else:
            off, va = 0x200, r.choice([0x200, 0x1000])
            for _ in range(r.choice([1, 2, 3, 4])):
                z = r.choice([8, 64, 200])
                ph = {"type": r.choice([1, 1, 1, 1, 2, 0x6474e551]), "x": r.random() < .6, "off": off, "va": va, "size": z}
                made["ph"].append(ph)
                e.load(off, va, z, flags=r.choice([4, 6]) | (1 if ph["x"] else 0), type=ph["type"])
                if ph["x"] and ph["type"] == 1:
                    segs.append({k: ph[k] for k in ("off", "va", "size")})
                off += z + r.choice([0, 8])
                va += z + r.choice([0, 8, 0x1000])
            e.section(".text", b"\x90" * (off - 0x200), addr=made["ph"][0]["va"], flags=elfgen.A | elfgen.X, offset=0x200)
        e.save(self.tmp + "/x.elf")
        with open(self.tmp + "/x.elf", "rb") as f:
            s["elf"] = f.read().hex()
        s["made"] = made
        s["loads"] = []
        s["segs"] = segs or [{"off": 0, "va": 0, "size": 1}]
        mk = lambda: self.events(s, False)
        bid = next((n["id"] for n in notes if n["note"] and n["owner"] == "GNU" and n["sec"] in (".note.gnu.build-id", ".notes")), "")
        names, ids = self.wanted(False, bid)
        s["loads"].append(self.load(s, mk(), names, ids))
        return s
