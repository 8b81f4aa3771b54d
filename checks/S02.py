import re
import build, vf

OWN = ["/bin/prog", "/tmp/prog2", "[kernel.kallsyms]", "[kernel.kallsyms]_stext", "[kernel.kallsyms]_text",
       "/lib/libc.so", "/boot/vmlinux", "/bin/other"]
KERN = lambda n: n == "[kernel.kallsyms]" or n.endswith("vmlinux")
IDS = ["aa01", "bb02", "cc03"]


class Check(vf.Check):
    pid = "S02"
    harness = ("S02", build.ALL + ["h:S02.cc"])
    trace = "S02Trace"
    mc = [("S02MC", "S02MC", 2)]
    mc_thorough = [("S02MC", "S02MC_big", 6)]
    level_note = ("The stack-to-range rule is model-checked against a processor model (committed and wrong-path branches, two binaries, "
                  "the duplicated-top fault); recorded tables of the real reader are validated by TLC. The perf.data decoder (quipper) is a "
                  "stand-in; straight-line code is assumed to stay in one mapping.")
    assumptions = ["quipper's parser is replaced by a stand-in that maps addresses through the recording's mappings"]

    def setting(self):
        r = self.rng
        s = {"stride": r.choice([4096, 4096, 4096, 16, 1048576]),
             "base": str(r.choice([0, 4096, 2**47 - 2**23, 2**63])),
             "obase": str(r.choice([0, 0, 1, 2**32 - 5, 2**40]))}
        if r.random() < .5:
            s["mode"] = "re"
            s["re"] = r.choice(["prog$", "/bin/prog", ".", "kallsyms", "^/bin/", "nothing", "libc"])
            s["own"] = [n for n in OWN if re.search(s["re"], n)]
        else:
            s["mode"] = "id"
            s["bid"] = r.choice(IDS)
            s["own"] = []
        return s

    def ids(self):
        r = self.rng
        names = r.sample(OWN, r.randint(0, 5))
        return [{"name": n, "id": r.choice(IDS), "kernel": KERN(n)} for n in names]

    def conv(self, b):
        """A branch stack of the processor model, sampled in a recording."""
        r = self.rng
        s = self.setting()
        s.update(mode="re", re="prog$", own=["/bin/prog"])
        # own binary at 2^22.., foreign above it
        O, F = 1 << 22, 1 << 23
        at = lambda p: (O if p["own"] else F) + p["off"]
        st = [[at(e["f"]), at(e["t"]), 1 if e["wp"] else r.choice([0, 2])] for e in b]
        ev = [{"k": "map", "pid": 5, "start": O, "len": 1 << 21, "pgoff": 0, "name": "/bin/prog"},
              {"k": "map", "pid": 5, "start": F, "len": 1 << 21, "pgoff": 0, "name": "/lib/libc.so"},
              {"k": "sample", "pid": 5, "ip": O + r.randint(0, 5), "stack": st}]
        s["files"] = [{"ids": [], "events": ev}]
        s["stride"] = 4096
        return s

    @property
    def gens(self):
        return [("S02Gen", "S02Gen", 300 if self.tier == "quick" else 5000, 16, self.conv)]

    def scripts(self, r, tier):
        out = []
        for _ in range(500 if tier == "quick" else 8000):
            s = self.setting()
            s["files"] = []
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                ev, spots = [], [(r.choice([5, 6]), 77)]
                for _ in range(r.randint(3, 9)):
                    if r.random() < .45 or not ev:
                        start = r.randint(0, 40) * (1 << 18)
                        m = {"k": "map", "pid": r.choice([5, 5, 6]), "start": start,
                             "len": r.choice([1 << 12, 1 << 20, 1 << 22]), "pgoff": r.choice([0, 0, 4096, 123]),
                             "name": r.choice(OWN)}
                        ev.append(m)
                        for _ in range(5):
                            spots.append((m["pid"], start + r.choice([0, 1, 5, 15, 16, 17, 18, 4095, 4096, 4097, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, r.randint(0, m["len"])])))
                    else:
                        pid = r.choice([5, 6])
                        loc = [x for p, x in spots if p == pid] or [9]
                        ent = lambda: [r.choice(loc), r.choice(loc), r.choice([0, 0, 0, 0, 1, 2])]
                        st = [ent() for _ in range(r.choice([0, 1, 2, 4, 8, 32]))]
                        if len(st) > 1 and r.random() < .4:
                            st[1][:2] = st[0][:2]
                            # strides at and around the limit
                            if r.random() < .5:
                                st[0][1] = st[0][0] - s["stride"] + r.choice([-1, 0, 0, 1])
                                if st[0][1] >= 0:
                                    st[1][1] = st[0][1]
                                else:
                                    st[0][1] = st[1][1]
                        if len(st) > 3 and r.random() < .2:
                            st[2][:2] = st[1][:2]
                        maps = [e for e in ev if e["k"] == "map"]
                        place = lambda x: max([i for i, m in enumerate(maps) if m["pid"] == pid and
                                               m["start"] <= x < m["start"] + m["len"]], default=-1)
                        # straight-line code stays in one mapping
                        newer = None
                        for e in st:
                            if e[2] == 1:
                                continue
                            if newer is not None and place(e[1]) != place(newer[0]):
                                near = [x for x in loc if place(x) == place(newer[0])]
                                e[1] = r.choice(near)
                            newer = e
                        ev.append({"k": "sample", "pid": pid, "ip": r.choice(loc), "stack": st})
                f = {"ids": self.ids() if s["mode"] == "id" or r.random() < .3 else [], "events": ev}
                s["files"].append(f)
            if r.random() < .1:
                s["files"].append({"ids": [], "events": [], "bad": r.choice(["missing", "broken"])})
            out.append(s)
        return out
