"""Binaries with symbols, segments and source stacks, and samples of runs."""
import os, tempfile
import elfgen
from profgen import *

FS = "__llvm_fs_discriminator__"
BASES = [0, 0x1000, 0x400000, 0x555555554000, 0xffffffff81000000]


# ---- discriminators as LLVM encodes them ----------------------------------
def _enc(u):
    u &= 0xfff
    return ((u & 0xfe0) << 1) | (u & 0x1f) | 0x20 if u > 0x1f else u


def _next(d):
    if d & 1:
        return d >> 1
    return d >> (14 if d & 0x40 else 7)


def _dec(u):
    if u & 1:
        return 0
    u >>= 1
    return ((u >> 1) & 0xfe0) | (u & 0x1f) if u & 0x20 else u & 0x1f


def discriminator(base, dup):
    out, at, left = 0, 0, base + dup
    for c in (base, dup):
        if left <= 0:
            break
        left -= c
        out |= (1 if c == 0 else _enc(c) << 1) << at
        at += 1 if c == 0 else 14 if c > 0x1f else 7
    return out


def dup_of(d):
    return _dec(_next(d)) or 1


def base_of(d):
    return _dec(d)


# ---- binaries --------------------------------------------------------------
class Bin:
    """funcs: [addr, size, name] ascending; syms in the order they are visited."""


def kind(n):
    if n == FS:
        return "fs"
    if n.endswith("@plt"):
        return "plt"
    if n.endswith(".cold"):
        return "cold"
    p = n.split(".")
    return "part" if len(p) > 2 and p[-2] == "__part" and p[-1].isdigit() else ""


def binary(r, names, nf=None, big=8, odd=.3, dups=False, mode=None, tight=.4):
    """mode: "exec", "kernel", "ko" (a module without segments), "arm"."""
    b = Bin()
    b.mode = mode = mode or r.choice(["exec", "exec", "exec", "kernel", "ko", "arm", "x32"])
    b.bits = 32 if mode in ("arm", "x32") else 64
    b.base = 0 if mode == "ko" else r.choice(BASES[:3] if b.bits == 32 else BASES)
    nf = nf if nf is not None else r.randint(1, 4)
    pool = r.sample(names, len(names))
    nseg = 1 if mode == "ko" else r.choice([1, 1, 2, 3])
    # segments: [offset, address, length]
    b.segs, b.phs, off, va = [], [], r.choice([0, 16, 64, 4096]), r.choice([0, 32, 256])
    per = [nf // nseg + (i < nf % nseg) for i in range(nseg)]
    b.funcs, used = [], []
    step = 2 if mode == "arm" else 1
    for i in range(nseg):
        if mode != "ko" and r.random() < .3:
            b.phs.append((True, False, off, va, 8))
            off, va = off + 8, va + 8 + r.choice([0, 64])
        a = 0 if mode == "ko" else va
        lo = a
        for _ in range(per[i]):
            a += 0 if r.random() < tight else step * r.randint(1, 4)
            z = step * r.randint(1, big)
            nm = r.choice(used) if dups and used and r.random() < .3 else pool.pop()
            used.append(nm)
            b.funcs.append([a, z, nm])
            a += z
        a += r.randint(0, 5)
        length = max(a - lo, 1)
        # (an address one below its offset, which no loader accepts, would be the code's "no segment")
        first = b.segs[0][0] if b.segs else off
        while lo + 1 in (off, off - first):
            off += 1
            first = b.segs[0][0] if b.segs else off
        b.segs.append([off, lo, length])
        if mode != "ko":
            b.phs.append((True, True, off, lo, length))
        off, va = off + length + r.randint(0, 9), lo + length + r.choice([0, 7, 64, 4096])
        if mode != "ko" and r.random() < .2:
            b.phs.append((False, r.random() < .5, off, va, 4))
    loc, glob, dyn = [], [], []
    extra = [n for n in pool if n not in used]
    thumb = lambda a: a | 1 if mode == "arm" and r.random() < .5 else a
    for a, z, nm in b.funcs:
        k = kind(nm)
        func = r.random() < (.5 if k in ("cold", "part") else 1)
        lst = r.choice([loc, glob]) if r.random() < .9 else dyn
        lst.append((nm, thumb(a) if func else a, z, func))
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            if r.random() < odd and extra:
                r.choice([loc, glob, dyn]).append((extra.pop(), thumb(a), r.choice([z, z, max(z - 1, 1)]), True))
        if r.random() < odd * .5:
            dyn.append((nm, a, z, True))
        if r.random() < odd:   # symbols that are not functions
            w = r.choice(["zero", "object", "plt", "label"])
            at = a + r.randint(0, z)
            n = {"zero": "zz0", "object": "obj1", "plt": r.choice(["ab@plt", "x@plt"]), "label": "lab.coldish"}[w]
            r.choice([loc, glob, dyn]).append((n, at, 0 if w == "zero" else 1, w in ("zero", "plt")))
    b.fs = odd > 0 and r.random() < .15
    if b.fs:
        glob.append((FS, b.segs[-1][1] + b.segs[-1][2] + 100, 1, False))
    r.shuffle(loc)
    r.shuffle(glob)
    e = elfgen.Elf(machine={"arm": 40, "x32": 3}.get(mode, elfgen.X86), etype=elfgen.REL if mode == "ko" else elfgen.DYN, bits=b.bits)
    e.paged = r.random() < .2
    e.section(".text", b"\x90" * 16, addr=b.base + (0 if mode == "ko" else b.segs[0][1]), flags=elfgen.A | elfgen.X,
              offset=max(b.segs[0][0], 512) if mode == "ko" else None)
    b.text = []
    if mode == "ko":
        b.segs[0][0] = max(b.segs[0][0], 512)
        b.text = [b.segs[0][0], 0]
    for load, ex, o, v, z in b.phs:
        e.load(o, b.base + v, z, flags=5 if ex else 4, type=elfgen.PT_LOAD if load else 4)
    b.syms = []
    for bind, lst in ((0, loc), (1, glob), (None, dyn)):
        for nm, a, z, func in lst:
            e.symbol(nm, b.base + a, z, type=2 if func else r.choice([0, 1]), bind=1 if bind is None else bind, dyn=bind is None)
            b.syms.append({"name": nm, "a": a & ~1 if mode == "arm" and func else a, "z": z, "fn": func, "k": kind(nm)})
    # An alias of one function that names another is not a meaningful binary.
    prim, alias = {}, set()
    for y in b.syms:
        if y["k"] == "fs" or (y["z"] and y["k"] != "plt" and (y["fn"] or y["k"] in ("cold", "part"))):
            alias |= {y["name"]} if y["a"] in prim and prim[y["a"]] != y["name"] else set()
            prim.setdefault(y["a"], y["name"])
    if alias & set(prim.values()):
        return binary(r, names, nf, big, odd, dups, mode, tight)
    d = tempfile.mkdtemp(prefix="sym.")
    e.save(d + "/x")
    b.elf = open(d + "/x", "rb").read().hex()
    os.unlink(d + "/x")
    os.rmdir(d)
    if mode == "kernel":
        o = [p[2] for p in b.phs if p[0] and p[1]][0]
        for s in b.segs:
            s[0] -= o
    return b


def newbin(B, m, b, pol):
    B.maps[m] = {"pol": pol, "names": set()}
    B.more |= {s["name"] for s in b.syms}
    B.base = b.base
    B.op(op="newbin", m=m, pol=pol, elf=b.elf, ko=b.mode == "ko", kernel=b.mode == "kernel", syms=b.syms, text=b.text,
         phs=[{"load": p[0], "exec": p[1], "off": p[2], "va": p[3]} for p in b.phs])


def offset(b, v):
    """The offset of an address, by the segment that holds it."""
    for o, a, n in reversed(b.segs):
        if v >= a:
            return o + v - a
    return None


# ---- runs -----------------------------------------------------------------
def stacks(r, B, b, names, pol, enc=False, gaps=.15, bad=.1, dup=.3, files=True):
    src = []
    pools = {}
    for a, z, nm in b.funcs:
        top = base(nm, pol)
        lines = r.sample([0, 1, 2, 3, 4, 5, 9, 100], 3)
        callees = r.sample(names, min(2, len(names)))
        last = None
        for i in range(z):
            if r.random() < gaps:
                continue
            if last and r.random() < .35:
                st = [dict(f) for f in last]
            else:
                st = [B.frame(f, True, bad * .5, lines=lines, discs=[0, 0, 1]) for f in [r.choice(callees) for _ in range(r.choice([0, 0, 1, 1, 2]))] + [top]]
                for f in st:
                    f["s"] = f["s"] and 10
                    f["l"] = f["l"] and 10 + r.choice(lines)
            d = 1
            for j, f in enumerate(st):
                raw = r.choice([0, 0, 1, 2, 7]) if r.random() > dup else discriminator(r.choice([0, 1, 3, 40]), r.choice([2, 3, 4, 33]))
                f["raw"] = raw
                f["x"] = base_of(raw) if enc and not b.fs else raw
                if j == 0:
                    d = 1 if b.fs else dup_of(raw)
            last = st
            src.append([a + i, st, d])
    return src


def run(r, b, mode, n=8, cap=20):
    """Samples: addresses, ranges, branches and times, as offsets."""
    ad, rg, br, ts = {}, {}, {}, {}

    def addr():
        if r.random() < .1:
            s = r.choice(b.segs)
            return s[1] + r.randint(0, s[2] - 1)
        a, z, _ = r.choice(b.funcs)
        return a + r.randint(0, z - 1)
    for _ in range(r.randint(0, n)):
        v = addr()
        ad[offset(b, v)] = r.choice([0, 1, 2, 5, cap])
    for _ in range(r.randint(0, n)):
        ts[offset(b, addr())] = r.choice([0, 1, 5, 9, 30, 77])
    if mode != "llc":
        for _ in range(r.randint(0, n)):
            v = addr()
            s = [s for s in b.segs if s[1] <= v][-1]
            w = min(v + r.choice([0, 0, 1, 2, 3, 6, 12]), s[1] + s[2] - 1)
            rg[(offset(b, v), offset(b, w))] = r.choice([0, 1, 2, 5, cap])
        for _ in range(r.randint(0, n)):
            to = r.choice(b.funcs)[0] if r.random() < .7 else addr()
            br[(offset(b, addr()), offset(b, to))] = r.choice([1, 2, 5, cap])
    return dict(ad=[[k, v] for k, v in ad.items()], ts=[[k, v] for k, v in ts.items()],
                rg=[[list(k), v] for k, v in rg.items()], br=[[list(k), v] for k, v in br.items()])
