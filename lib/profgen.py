"""Scripts of operations on function profiles, shared by the P checks."""
import math
import build, vf

LINES = [0, 1, 2, 3, 5, 100, 9999, 10000, 65535, -3, 65536 + 7]
DISCS = [0, 0, 0, 1, 2, 7, 4096, 65535]
PLAIN = ["a", "b", "c", "main", "zz", "_ZN1a3fooEv"]
D4 = ["_ZN3FooD4Ev", "_ZN3FooC4Ev", "_ZN3FooD2Ev", "_ZN1sC4EPKc", "_ZN1sC4EPKcRKS2_", "D4Ev", "xD4Ev", "xxC4EPKc", "_C4EPKcRKS2_"]
DOTTED = ["a.cold", "a.llvm.123", "b.__part.1", "a.llvm.5.cold", ".Lasm.x", "c.isra.0", "main.cold.1", "b.lto_priv.0",
          "a.cold.llvm.9", "zz.__part.2.llvm.44", "b.llvm", "c.__part", "main.llvm.7.__part.3.cold", "a.b.c", "a.cold.cold",
          "a.cold.b.cold", "b.llvm.1.llvm.2", "a.llvm.5.isra.0", "c.__part.1.x.__part.2", "b.llvm.3.x.llvm.4"]
SPECIAL = ["strip1", "stripX", "sole1", "solef.cold", "keepcold1", "keepcold.x", "sol", "a"]


def ren(c):
    n = len(c)
    if n > 5 and c[-4:] in ("D4Ev", "C4Ev"):
        return c[:n - 3] + "2" + c[n - 2:]
    if n > 7 and c.endswith("C4EPKc"):
        return c[:n - 5] + "2" + c[n - 4:]
    if n > 12 and c.endswith("C4EPKcRKS2_"):
        return c[:n - 10] + "2" + c[n - 9:]
    return c


def base(name, pol):
    p = name.split(".")
    if pol == "none":
        return name
    if pol == "all":
        return name if p[0] == "" else p[0]

    def cut(p, w, tailed, n):
        s = [i for i in range(1, len(p)) if p[i] == w and (not tailed or i < len(p) - 1)]
        return p[:s[-1]] + p[s[-1] + n:] if s else p
    p = cut(p, "cold", False, 1)
    p = cut(p, "llvm", True, 2)
    return ".".join(cut(p, "__part", True, 2))


def closure(names):
    s = set(names)
    while True:
        t = s | {base(n, q) for n in s for q in ("all", "selected")} | {ren(n) for n in s}
        if t == s:
            return s
        s = t


def cls(n):
    for p, c in (("strip", "strip"), ("sole", "sole"), ("keepcold", "cold"), ("__strip_all_special_$erqweriwe2313541__", "strip"),
                 ("__keep_sole_special_$sdlfa3293481293__", "sole"), ("__keep_cold_special_$203128ksjldfaskf__", "cold"),
                 ("__cxx_global_var_init", "cold"), ("_GLOBAL__sub_I_", "cold"),
                 ("_ZNK16GWSLogEntryProto18_InternalSerializeEPhPN6proto22io19EpsCopyOutputStreamE", "strip")):
        if n.startswith(p):
            return c
    return ""


class B:
    """One script being built."""

    def __init__(self, rng, names, unit=1, files=True):
        self.r, self.names, self.unit, self.files = rng, list(names), unit, files
        self.ops = []
        self.maps = {}
        self.targets = None
        self.more = set()
        self.nfile = 0
        self.norec = False      # no recursion in a chain of inlined calls
        self.base = 0

    def op(self, **k):
        self.ops.append(k)
        return k

    def new(self, m, pol="none"):
        self.maps[m] = {"pol": pol, "names": set()}
        self.op(op="new", m=m, pol=pol)

    def sym(self, m, name):
        self.maps[m]["names"].add(name)
        self.op(op="sym", m=m, name=name)

    def frame(self, fn, strict, bad=0.0, lines=LINES, discs=DISCS):
        r = self.r
        s = 0 if not strict else r.choice([1, 10, 70000])
        off = r.choice(lines)
        if strict and s + off <= 0:
            off = r.choice([0, 1, 2, 3])
        f = {"fn": fn, "f": "", "d": "", "s": s, "l": s + off, "x": r.choice(discs)}
        if self.files:
            h = sum(map(ord, fn))
            if h % 4:
                f["f"] = "f%d.cc" % (h % 3)
                f["d"] = ["", "dir", "/abs/dir"][h % 5 % 3]
        if strict and r.random() < bad:
            f[r.choice(["s", "l"])] = 0
        if not strict and f["l"] < 0:
            f["l"] += 1 << 32
            f["l"] = f["l"] if f["l"] < (1 << 31) else 2
        return f

    def stack(self, top, depth, strict, bad=0.0, callees=None, lines=LINES, discs=DISCS):
        if self.norec:
            rest = [x for x in self.names if x != top]
            fns = self.r.sample(rest, min(depth, len(rest))) + [top]
        else:
            fns = [self.r.choice(callees or self.names) for _ in range(depth)] + [top]
        return [self.frame(f, strict, bad, lines, discs) for f in fns]

    def src(self, m, name, depth=None, strict=True, n=None, bad=0.0, dup=1, inst=None, **k):
        r = self.r
        depth = r.choice([0, 0, 0, 1, 1, 2, 3]) if depth is None else depth
        if name not in self.maps[m]["names"]:
            self.sym(m, name)
        st = self.stack(name, depth, strict, bad, **k)
        self.op(op="src", m=m, name=name, stack=st, n=r.choice([0, 1, 2, 3, 10, 50, 100, 1000]) if n is None else n,
                inst=r.choice([0, 1, 1, 3]) if inst is None else inst, dup=dup, strict=strict, proto=r.random() < .3)
        return st

    def call(self, m, name, st, strict=True, to=None, n=None):
        r = self.r
        self.op(op="call", m=m, name=name, stack=st, to=to or r.choice(self.targets or self.names), n=r.choice([1, 2, 5, 40]) if n is None else n,
                strict=strict, proto=r.random() < .3)

    def profile(self, m, pol="none", funcs=None, samples=12, strict=True, bad=0.0, calls=.3, entries=.6, thr=None, tree=True, **k):
        """A random profile."""
        r = self.r
        self.new(m, pol)
        funcs = funcs or r.sample(self.names, min(len(self.names), r.randint(1, 4)))
        for f in funcs:
            self.sym(m, f)
            if r.random() < entries:
                self.op(op="entry", m=m, name=f, h=r.choice([0, 1, 4, 25]), n=0)
        last = {}
        for _ in range(samples):
            f = r.choice(funcs)
            if f in last and r.random() < calls:
                st = last[f]
                if r.random() < .5:
                    st = self.stack(f, len(st) - 1, strict, bad, **k)
                self.call(m, f, st, strict)
            elif tree:
                last[f] = self.src(m, f, strict=strict, bad=bad, **k)
            else:
                last[f] = self.src(m, f, strict=strict, bad=bad, depth=0, **k)
        if thr is not None:
            self.op(op="thr", m=m, n=thr)

    def times(self, m):
        """Some functions were seen running."""
        for f in sorted(self.maps[m]["names"]):
            for _ in range(self.r.choice([0, 0, 1, 1, 2])):
                self.op(op="ran", m=m, name=f, v=self.r.choice([0, 1, 2, 7, 30]))

    def file(self):
        self.nfile += 1
        return "p%d" % self.nfile

    def script(self):
        used = set(self.names) | self.more
        for o in self.ops:
            for k in ("name", "to", "alias"):
                if k in o:
                    used.add(o[k])
            for f in o.get("stack", ()):
                used.add(f["fn"])
            for x in o.get("src", ()):
                used |= {f["fn"] for f in x[1]}
            if "mode" in o:
                used.add("__llc_misses__")
            used |= {x["nm"] for x in o.get("q", ())}
        tab = [{"name": n, "parts": n.split("."), "ren": ren(n), "cls": cls(n)} for n in sorted(closure(used), key=lambda s: s.encode())]
        return {"names": tab, "ops": self.ops, "unit": str(self.unit), "base": hex(self.base)}


def gap(unit):
    return max(1, math.ceil(1000 / unit))


class ProfCheck(vf.Check):
    harness = ("prof", build.ALL + ["h:prof.cc"])
    trace = "ProfTrace"
    level = "model_checking"
    UNITS = [1, 1, 1, 7, 1 << 20, 1 << 31, 1 << 40]
    unit_tlc = UNITS
    pols = ["none"]
    rename = {}
    entry_counts = {}
    level_note = ("The laws of the property are checked by TLC on every small profile the specification can collect; the real code's "
                  "whole state after every operation, and every file it writes, is then validated by TLC against the same operators.")
    assumptions = ["counts stay below 2^63; LLVM's own profile library reads and writes its formats correctly"]

    @property
    def mc(self):
        return [("ProfMC", self.pid + "MC", 3)]

    @property
    def mc_thorough(self):
        return [("ProfMC", self.pid + "MC_big", 6)]

    @property
    def gens(self):
        return [("ProfGen", "ProfGen", 150 if self.tier == "quick" else 3000, 11, self.conv)]

    def conv(self, log):
        """A behaviour of the specification as a script."""
        r = self.rng
        nm = lambda n, d=0: self.rename.get((n, d), self.rename.get(n, n))
        b = B(r, sorted({nm(x) for x in "fgh"}), r.choice(self.unit_tlc), files=False)
        for m in (0, 1):
            b.new(m, r.choice(self.pols))
        for who, kind, st, n, to in log:
            m = 0 if who == "a" else 1
            top = nm(st[-1][0])
            if top not in b.maps[m]["names"]:
                b.sym(m, top)
            stack = [{"fn": nm(f, len(st) - 1 - i), "f": "", "d": "", "s": 10, "l": 10 + l, "x": x} for i, (f, l, x) in enumerate(st)]
            if kind == "src":
                b.op(op="src", m=m, name=top, stack=stack, n=n, inst=1, dup=1, strict=True)
            elif kind == "call":
                b.call(m, top, stack, to=nm(to), n=n)
            else:
                b.op(op="entry", m=m, name=top, h=self.entry_counts.get(n, n), n=0)
        self.finish(b, r)
        return b.script()

    def count(self):
        return 300 if self.tier == "quick" else 6000

    def scripts(self, r, tier):
        out = []
        while len(out) < self.count():
            out.append(self.one(r))
        return out
