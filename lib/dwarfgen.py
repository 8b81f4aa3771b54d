"""Debug information: random programs (functions, inlined calls, line tables)
and their DWARF 2 to 5 encodings, written attribute by attribute."""
import os, struct, tempfile
import elfgen

CU, SUB, INL, BLK, STRUCT, NS, PARM, VAR, BASE, SITE = 0x11, 0x2e, 0x1d, 0x0b, 0x13, 0x39, 5, 0x34, 0x24, 0x4109
(ADDR, BLOCK2, BLOCK4, DATA2, DATA4, DATA8, STRING, BLOCK, BLOCK1, DATA1, FLAG, SDATA, STRP, UDATA, REF_ADDR) = (
    1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16)
REF4, SEC_OFFSET, EXPRLOC, PRESENT, STRX, ADDRX, DATA16, LINE_STRP, IMPL, RNGLISTX = (
    0x13, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1e, 0x1f, 0x21, 0x23)
GADDR, GSTR = 0x1f01, 0x1f02
SKEL, DWO = 0x4a, "@DWO%d%s@"
STRXN, ADDRXN = [0x25, 0x26, 0x27, 0x28], [0x29, 0x2a, 0x2b, 0x2c]


def uleb(n):
    o = bytearray()
    while True:
        b = n & 127
        n >>= 7
        if n:
            o.append(b | 128)
        else:
            o.append(b)
            return bytes(o)


def uleb_pad(n, r):
    """The same number, sometimes with more bytes than needed."""
    o = bytearray(uleb(n))
    if r.random() < .1:
        o[-1] |= 128
        o.append(0)
    return bytes(o)


def sleb(n):
    o = bytearray()
    while True:
        b = n & 127
        n >>= 7
        if (n == 0 and not b & 64) or (n == -1 and b & 64):
            o.append(b)
            return bytes(o)
        o.append(b | 128)


class Pool:
    def __init__(self, junk=b""):
        self.b, self.at = bytearray(junk), {}

    def __call__(self, s):
        if s not in self.at:
            self.at[s] = len(self.b)
            self.b += s.encode() + b"\0"
        return self.at[s]


# ---- programs ---------------------------------------------------------------
NAMES = ["a", "main", "f", "g", "operator()", "vector", "_Z1av", "_ZN1aC2Ev", "_ZN1aC4Ev", "_Z4mainv.part.0", "x" * 40]
DIRS = ["/abs", "/abs/b", "rel", "../up", "x/y", "."]
FILES = ["a.cc", "b.h", "c/d.h", "main.cc", "e"]


class Prog:
    """cus: [{v, comp, files, ...}]; dies, seqs as the specification has them."""


def program(r, ncu=None, deep=3, split=False):
    p = Prog()
    p.r = r
    p.g = g = r.choice([1, 1, 1, 2, 4])
    ncu = ncu or r.choice([1, 1, 2, 2, 3])
    p.files, p.dies, p.seqs, p.cus = [], [], [], []
    allv = r.choice([None, None, 5, 4])
    for c in range(ncu):
        v = allv or r.choice([2, 3, 4, 4, 5, 5, 5])
        comp = r.choice(["/src", "/src/build", ".", "/proc/self/cwd", ""])
        fs = []
        for _ in range(r.randint(1, 4)):
            d = r.choice(DIRS + [""] + ([comp] if v >= 5 else []))
            p.files.append({"d": d, "f": r.choice(FILES), "abs": d.startswith("/")})
            fs.append(len(p.files))
        p.cus.append(dict(v=v, comp=comp, files=fs, seqs=[], kids=[], slots=[], split=False))
    # units whose functions are described in a file of their own, with DWARF 4
    # only where no unit is DWARF 5: the tables of addresses differ
    p.split = split and (5 if any(c["v"] == 5 for c in p.cus) else 4)
    for c in p.cus:
        c["split"] = c["v"] == p.split and r.random() < .8
    p.split = p.split if any(c["split"] for c in p.cus) else 0
    # functions' places
    at = r.choice([1, 3, 16]) * g
    slots = []
    for _ in range(r.randint(1, 7)):
        at += r.choice([0, 0, 1, 5]) * g
        n = r.choice([1, 2, 3, 5, 8, 12, 20, 40]) * g
        slots.append((at, at + n))
        at += n
    p.end = at
    p.places = slots
    own = []   # cu of each slot
    for i in range(len(slots)):
        own.append(own[-1] if own and r.random() < .6 else r.randrange(ncu))
    # abstract functions: (declaration), definition
    p.abstract = []
    for c in range(ncu):
        for _ in range(r.randint(0, 3)):
            abstract(p, c)
    free = list(range(len(slots)))
    r.shuffle(free)
    while free:
        i = free.pop()
        c = own[i]
        mine = [i]
        while r.random() < .35:
            o = [j for j in free if own[j] == c]
            if not o:
                break
            j = r.choice(o)
            free.remove(j)
            mine.append(j)
        parts = [slots[j] for j in mine]
        f = concrete(p, c, parts)
        inlined(p, c, f, parts, deep)
        p.cus[c]["slots"] += mine
    # nested functions: the debug information of one inside that of another
    tops = [i for i, d in enumerate(p.dies) if d["k"] == "sub" and d["rs"]]
    for i in tops:
        if r.random() < .15:
            o = [j for j in range(len(p.dies)) if j != i and p.dies[j]["cu"] == p.dies[i]["cu"] and p.dies[j]["k"] in ("sub", "inl")
                 and not p.dies[j].get("decl_only")]
            j = r.choice(o) if o else i
            k = j
            while k is not None and k != i:
                k = p.dies[k]["x"]
            if k is None:
                p.dies[i]["x"] = j
    # line tables
    for c in range(ncu):
        m = sorted(p.cus[c]["slots"])
        groups = []
        for i in m:
            if groups and groups[-1][-1] == i - 1 and r.random() < .5:
                groups[-1].append(i)
            else:
                groups.append([i])
        for q in groups:
            if r.random() < .05:
                continue
            s = sequence(p, c, slots[q[0]][0], slots[q[-1]][1])
            if s:
                p.cus[c]["seqs"].append(s)
                p.seqs.append(s)
        r.shuffle(p.cus[c]["seqs"])
    p.slots = slots
    return p


def die(p, **k):
    d = dict(cu=0, k="sub", up=0, name="", link="", sp=0, og=0, decl=0, rs=[], cf=0, cl=0, cx=0, x=None)
    d.update(k)
    p.dies.append(d)
    return len(p.dies) - 1


def ident(p, plain=.2):
    r = p.r
    n = r.choice(NAMES) + r.choice(["", "1", "2", "3"])
    return n, ("" if r.random() < plain else "_Z" + n)


def line(r):
    return r.choice([1, 2, 5, 10, 77, 200, 255, 256, 300, 40000, 65536, 100000])


def abstract(p, c):
    r = p.r
    n, l = ident(p)
    if r.random() < .4:
        s = die(p, cu=c, name=n, link=l if r.random() < .7 else "", decl=line(r), decl_only=True, cls=r.random() < .8)
        a = die(p, cu=c, sp=s + 1, decl=line(r) if r.random() < .7 else 0, link=l if r.random() < .3 else "", abstract=True)
    else:
        a = die(p, cu=c, name=n, link=l, decl=line(r), abstract=True)
    p.abstract.append(a)
    return a


def pick(p, c):
    """An abstract function, mostly of the same unit."""
    r = p.r
    o = [a for a in p.abstract if p.dies[a]["cu"] == c or (p.cus[c]["comp"] and p.cus[p.dies[a]["cu"]]["comp"])]
    near = [a for a in o if p.dies[a]["cu"] == c]
    if p.cus[c]["split"]:
        return r.choice(near) if near and r.random() < .8 else abstract(p, c)
    o = [a for a in o if not p.cus[p.dies[a]["cu"]]["split"]]
    if near and r.random() < .8:
        return r.choice(near)
    return r.choice(o) if o and r.random() < .7 else abstract(p, c)


def concrete(p, c, parts):
    r = p.r
    k = r.random()
    if k < .5:
        n, l = ident(p)
        return die(p, cu=c, name=n, link=l, decl=line(r) if r.random() < .95 else 0, rs=[list(x) for x in parts])
    if k < .75:
        a = pick(p, c)
        return die(p, cu=c, og=a + 1, link="_ZX%d" % len(p.dies) if r.random() < .3 else "", rs=[list(x) for x in parts])
    n, l = ident(p)
    s = die(p, cu=c, name=n, link=l if r.random() < .8 else "", decl=line(r), decl_only=True, cls=True)
    return die(p, cu=c, sp=s + 1, decl=line(r) if r.random() < .8 else 0, link="" if r.random() < .7 else "_ZY%d" % s,
               rs=[list(x) for x in parts])


def inlined(p, c, up, parts, deep):
    r, g = p.r, p.g
    if not deep:
        return
    rest = [list(x) for x in parts]
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        mine, after = [], []
        for lo, hi in rest:
            if hi - lo >= g and r.random() < .6 and len(mine) < 2:
                if r.random() < .2:
                    a, b = lo, hi
                else:
                    a = lo + r.randrange((hi - lo) // g) * g
                    b = a + r.randint(1, (hi - a) // g) * g
                mine.append([a, b])
                after += [x for x in ([lo, a], [b, hi]) if x[0] < x[1]]
            else:
                after.append([lo, hi])
        if not mine:
            continue
        rest = after
        cf = r.choice(p.cus[c]["files"]) if r.random() < .95 else 0
        i = die(p, cu=c, k="inl", up=up + 1, og=pick(p, c) + 1, rs=mine, cf=cf, cl=line(r) if cf else 0,
                cx=r.choice([0, 0, 1, 2, 255, 256, 70000]), x=up)
        inlined(p, c, i, mine, deep - 1)


def sequence(p, c, lo, hi):
    r, g = p.r, p.g
    fs = p.cus[c]["files"]
    s = lo
    if r.random() < .1:
        s = lo + r.randrange((hi - lo) // g) * g
    end = hi
    if r.random() < .1 and hi - s > g:
        end = hi - g
    rows, a = [], s
    f, l = r.choice(fs), line(r)
    while a < end:
        if r.random() < .3:
            f = r.choice(fs)
        if r.random() < .8:
            l = r.choice([l, l + 1, max(l - 1, 1), l + 3, max(l - 5, 1), l + 10, line(r)])
        rows.append([a, f, 0 if r.random() < .06 else l, r.choice([0, 0, 0, 1, 2, 127, 128, 4096, 70000])])
        a += r.choice([0, 1, 1, 2, 3, 7, 20]) * g
    if r.random() < .05 and all(x != end for x, _ in p.places):
        rows.append([end, f, l + 1, 0])
    return {"rows": rows, "end": end}


# ---- encodings --------------------------------------------------------------
class Abbrevs:
    def __init__(self, r):
        self.at, self.b = {}, bytearray()
        n = r.choice([0, 0, 0, 1, 130])
        for _ in range(n):
            self.of(BASE, 0, [(0xb, DATA1, None)], fresh=True)

    def of(self, tag, kids, attrs, fresh=False):
        k = (tag, kids, tuple(attrs))
        if k not in self.at or fresh:
            n = len(self.at) + 1
            if fresh:
                k = k + (n,)
            self.at[k] = n
            self.b += uleb(n) + uleb(tag) + bytes([kids])
            for a, f, v in attrs:
                self.b += uleb(a) + uleb(f) + (sleb(v) if f == IMPL else b"")
            self.b += b"\0\0"
        return self.at[k]


class Node:
    def __init__(self, tag, attrs, kids=(), key=None):
        self.tag, self.attrs, self.kids, self.key = tag, attrs, list(kids), key


class Enc:
    """One file's debug sections."""

    def __init__(self, p, base, width, d64, dup=None):
        self.p, self.r, self.base, self.w, self.d64 = p, p.r, base, width, d64
        r = self.r
        self.str = Pool(r.choice([b"", b"\0junk\0"]))
        self.lstr = Pool(b"")
        self.info, self.line, self.ranges = bytearray(), bytearray(), bytearray()
        self.rng, self.addr, self.stro, self.arng = bytearray(), bytearray(), bytearray(), bytearray()
        self.abbrev = bytearray(r.choice([b"", b"\0"]))
        self.where = {}   # die -> absolute offset
        self.fix = []     # (position, target die)
        tables = []
        order = list(range(len(p.cus)))
        if r.random() < .3:
            c = r.choice(order)
            order += [] if p.cus[c]["split"] else [c]
        pend = []
        self.share = r.random() < .4
        ab = None
        for c in order:
            if ab is None or not self.share:
                ab = Abbrevs(r)
                tables.append(ab)
            pend.append((c, ab, len(tables) - 1))
        # the abbreviations must be complete before the offsets are known:
        # two passes over the same random choices
        st = r.getstate()
        for final in (False, True):
            r.setstate(st)
            self.info, self.line, self.ranges = bytearray(), bytearray(), bytearray()
            self.rng, self.addr, self.stro, self.arng = bytearray(), bytearray(), bytearray(), bytearray()
            self.fix, self.where, self.dwos = [], {}, []
            offs, o = [], len(self.abbrev)
            for t in tables:
                offs.append(o)
                o += len(t.b) + 1
            for n, (c, t, i) in enumerate(pend):
                self.unit(c, t, offs[i], order.index(c) != n)
        for t in tables:
            self.abbrev += t.b + b"\0"
        for pos, target, size in self.fix:
            v = self.where[target]
            self.info[pos:pos + size] = v.to_bytes(size, "little")

    def off(self, n):
        return struct.pack("<Q" if self.d64 else "<I", n)

    def adr(self, n):
        return n.to_bytes(self.w, "little")

    def length(self, n):
        return b"\xff\xff\xff\xff" + struct.pack("<Q", n) if self.d64 else struct.pack("<I", n)

    # -- strings, numbers, addresses: a form and its bytes
    def text(self, u, s):
        r, v = self.r, u["v"]
        o = [STRING, STRP, STRP]
        if u["split"]:
            o = [STRING] + (STRXN + [STRX] if v >= 5 else [GSTR] * 3)
        elif v >= 5:
            o += [LINE_STRP] + ([STRX] + STRXN if u["strx"] else [])
        f = r.choice(o)
        if f == STRING:
            return f, s.encode() + b"\0"
        if f == STRP:
            return f, self.off(self.str(s))
        if f == LINE_STRP:
            return f, self.off(self.lstr(s))
        i = u["strs"].setdefault(s, len(u["strs"]))
        if f in (STRX, GSTR):
            return f, uleb(i)
        return f, i.to_bytes(STRXN.index(f) + 1, "little")

    def num(self, u, n, udata=True, impl=True):
        r = self.r
        o = [DATA4] + ([DATA2] if n < 65536 else []) + ([DATA1] * 3 if n < 256 else [])
        if udata:
            o += [UDATA]
        if impl and u["v"] >= 5:
            o += [IMPL]
        f = r.choice(o)
        if f == UDATA:
            return f, uleb(n)
        if f == IMPL:
            return (f, n), b""
        return f, n.to_bytes({DATA1: 1, DATA2: 2, DATA4: 4}[f], "little")

    def address(self, u, a):
        r = self.r
        if not u["addrx"] or (r.random() < .3 and not u["split"]):
            return ADDR, self.adr(a)
        i = self.aidx(u, a)
        if u["v"] < 5:
            return GADDR, uleb(i)
        f = r.choice([ADDRX] + ADDRXN)
        return f, (uleb(i) if f == ADDRX else i.to_bytes(ADDRXN.index(f) + 1, "little"))

    def aidx(self, u, a):
        if self.r.random() < .2:
            u["addrs"].append(a)
            return len(u["addrs"]) - 1
        if a not in u["addrs"]:
            u["addrs"].append(a)
        return u["addrs"].index(a)

    def place(self, u, rs, cu=False):
        """The attributes of the ranges of a function, a block or a unit."""
        r, v, b = self.r, u["v"], self.base
        rs = [(b + x, b + y) for x, y in rs]
        single = len(rs) == 1 and (r.random() < .8)
        if single:
            lo, hi = rs[0]
            f, x = self.address(u, lo)
            if v >= 4 and r.random() < .7:
                n = hi - lo
                g, y = r.choice([(DATA4, struct.pack("<I", n)), (DATA8, struct.pack("<Q", n)), (UDATA, uleb(n))] +
                                ([(DATA1, bytes([n]))] if n < 256 else []))
            else:
                g, y = self.address(u, hi)
            return [(0x11, f, x), (0x12, g, y)]
        r.shuffle(rs)
        k = self.ranges_list(u, rs)
        if v >= 5:
            if u["rnglx"] and (u["split"] or r.random() < .6):
                return [(0x55, RNGLISTX, uleb(k))]
            return [(0x55, SEC_OFFSET, ("rng", k))]
        return [(0x55, SEC_OFFSET if v >= 4 else DATA4 if not self.d64 else DATA8, self.off(k - (u["rbase"] if u["split"] else 0)))]

    def ranges_list(self, u, rs):
        r, out = self.r, bytearray()
        base = u["base"]
        if u["v"] < 5:
            at = len(self.ranges)
            top = (1 << (8 * self.w)) - 1
            for lo, hi in rs:
                if (lo < base) or r.random() < .2:
                    base = r.choice([0, lo, lo - 5, self.base])
                    out += self.adr(top) + self.adr(base)
                out += self.adr(lo - base) + self.adr(hi - base)
            out += self.adr(0) * 2
            self.ranges += out
            return at
        for lo, hi in rs:
            k = r.choice([3, 4, 4, 6, 7] + ([3, 3] if u["addrx"] else []))
            if k == 4:
                if lo < base or r.random() < .2:
                    base = r.choice([lo, self.base, lo])
                    if u["addrx"] and r.random() < .5:
                        out += b"\1" + uleb(self.aidx(u, base))
                    else:
                        out += b"\5" + self.adr(base)
                out += b"\4" + uleb(lo - base) + uleb(hi - base)
            elif k == 3 and u["addrx"]:
                if r.random() < .5:
                    out += b"\3" + uleb(self.aidx(u, lo)) + uleb(hi - lo)
                else:
                    out += b"\2" + uleb(self.aidx(u, lo)) + uleb(self.aidx(u, hi))
            elif k == 6:
                out += b"\6" + self.adr(lo) + self.adr(hi)
            else:
                out += b"\7" + self.adr(lo) + uleb_pad(hi - lo, r)
        out += b"\0"
        u["lists"].append(bytes(out))
        return len(u["lists"]) - 1

    # -- units
    def unit(self, c, abbrevs, aboff, again):
        r, p = self.r, self.p
        cu = p.cus[c]
        v = cu["v"]
        u = dict(v=v, strx=v >= 5 and r.random() < .5, addrx=v >= 5 and r.random() < .5 and p.split != 4,
                 rnglx=v >= 5 and r.random() < .6, strs={}, addrs=[], lists=[], base=0, c=c, split=False)
        for s in r.sample(["pad", "other"], r.randint(0, 2)):
            u["strs"].setdefault(s, len(u["strs"]))
        idx, lineoff = self.table(u, cu)
        u["idx"] = idx
        # the unit's own ranges
        rs = []
        for i in sorted(cu["slots"]):
            lo, hi = p.slots[i]
            if rs and rs[-1][1] == lo:
                rs[-1][1] = hi
            else:
                rs.append([lo, hi])
        head = []
        if rs:
            u["base"] = 0
            if len(rs) > 1 and r.random() < .6:
                low = self.base + (rs[0][0] if r.random() < .5 else 0)
                f, x = self.address(u, low)
                head = [(0x11, f, x)]
                u["base"] = low
                at = self.place(u, rs)
                if at[0][0] == 0x11:
                    head = at
                else:
                    head = (head + at) if r.random() < .5 else (at + head)
            else:
                head = self.place(u, rs)
                u["base"] = self.base + rs[0][0] if head[0][0] == 0x11 else 0
        attrs = [(0x10, SEC_OFFSET if v >= 4 else DATA8 if self.d64 else DATA4, self.off(lineoff))]
        attrs += [(0x25,) + self.text(u, "cc"), (0x13, DATA2, b"\x04\0"), (3,) + self.text(u, "u%d.cc" % c)]
        if cu["comp"]:
            attrs += [(0x1b,) + self.text(u, cu["comp"])]
        r.shuffle(attrs)
        attrs += head
        if r.random() < .5:
            attrs = head + attrs[:len(attrs) - len(head)]
        kids, ident = [], 0
        if cu["split"]:
            ident = r.getrandbits(64)
            name = DWO % (len(self.dwos), "R" if cu["comp"] in (".", "/proc/self/cwd", "") and r.random() < .6 else "A")
            name += "." * (200 - len(name))
            at = r.choice([0, len(attrs)])
            rb = r.choice([0, len(self.ranges)])
            attrs[at:at] = [(0x2130 if v < 5 else 0x76,) + self.text(u, name)]
            if v < 5:
                attrs += [(0x2131, DATA8, struct.pack("<Q", ident)), (0x2132, SEC_OFFSET, self.off(rb))]
            self.dwo(u, c, v, ident, rb)
            if v < 5 and u["addrs"]:
                attrs += [(0x2133, SEC_OFFSET, self.off(len(self.addr)))]
                self.addr += b"".join(self.adr(a) for a in u["addrs"])
            r.shuffle(attrs)
        else:
            for i, d in enumerate(p.dies):
                if d["cu"] == c and d["x"] is None:
                    kids += self.function(u, i)
            if r.random() < .3:
                kids.insert(r.randint(0, len(kids)), Node(BASE, [(0xb, DATA1, b"\4"), (3,) + self.text(u, "int")]))
        if v >= 5:
            base = []
            # a table's bases: known once the tables are written
            hd = 16 if self.d64 else 8
            if u["strs"] and u["strx"]:
                base.append((0x72, SEC_OFFSET, self.off(len(self.stro) + hd)))
            if u["addrs"]:
                base.append((0x73, SEC_OFFSET, self.off(len(self.addr) + hd)))
            lh = (20 if self.d64 else 12)
            rbase = len(self.rng) + lh
            if u["lists"] and u["rnglx"]:
                base.append((0x74, SEC_OFFSET, self.off(rbase)))
            for a in base:
                attrs.insert(r.choice([0, len(attrs), r.randint(0, len(attrs))]), a)
            offs, o = [], (len(u["lists"]) * (8 if self.d64 else 4) if u["rnglx"] else 0)
            for l in u["lists"]:
                offs.append(o)
                o += len(l)
            u["at"] = [rbase + x for x in offs]
            if u["lists"]:
                body = struct.pack("<HBBI", 5, self.w, 0, len(offs) if u["rnglx"] else 0)
                if u["rnglx"]:
                    body += b"".join(self.off(x) for x in offs)
                body += b"".join(u["lists"])
                self.rng += self.length(len(body)) + body
            if u["addrs"]:
                body = struct.pack("<HBB", 5, self.w, 0) + b"".join(self.adr(a) for a in u["addrs"])
                self.addr += self.length(len(body)) + body
            if u["strx"]:
                body = struct.pack("<HH", 5, 0) + b"".join(self.off(self.str(s)) for s in u["strs"])
                self.stro += self.length(len(body)) + body
        start = len(self.info)
        n = 12 if self.d64 else 4
        self.tree(Node(SKEL if cu["split"] and v >= 5 else CU, attrs, kids), abbrevs, u, again, aboff,
                  4 if cu["split"] else 1, ident)
        if rs and r.random() < .4 and not again:
            z = 2 * self.w
            hl = n + 2 + (8 if self.d64 else 4) + 2
            body = struct.pack("<H", 2) + self.off(start) + bytes([self.w, 0]) + b"\0" * (-hl % z)
            for lo, hi in rs:
                body += self.adr(self.base + lo) + self.adr(hi - lo)
            body += b"\0" * z
            self.arng += self.length(len(body)) + body

    def tree(self, nd, abbrevs, u, again, aboff, kind, ident):
        """Adds a unit to the debug information."""
        r, v = self.r, u["v"]
        start = len(self.info)
        n = 12 if self.d64 else 4
        hdr = struct.pack("<H", v)
        if v >= 5:
            hdr += bytes([kind, self.w]) + self.off(aboff) + (struct.pack("<Q", ident) if kind != 1 else b"")
        else:
            hdr += self.off(aboff) + bytes([self.w])
        self.body = bytearray(hdr)
        self.pos0 = start + n
        self.rel, self.local = [], {}
        self.emit(nd, abbrevs, u, again)
        for pos, target, size in self.rel:
            pos -= self.pos0
            self.body[pos:pos + size] = (self.local[target] - start).to_bytes(size, "little")
        if r.random() < .2:
            self.body += b"\0" * r.randint(1, 3)
        self.info += self.length(len(self.body)) + self.body

    def dwo(self, sk, c, v, ident, rb):
        """The file that describes the functions of skeleton unit sk."""
        r, p = self.r, self.p
        u = dict(sk, split=True, addrx=True, strx=True, rnglx=True, strs={}, lists=[], rbase=rb)
        ab, info, self.info = Abbrevs(r), self.info, bytearray()
        attrs = [(0x25,) + self.text(u, "cc"), (0x13, DATA2, b"\x04\0"), (3,) + self.text(u, "u%d.cc" % c)]
        if v < 5:
            attrs.append((0x2131, DATA8, struct.pack("<Q", ident)))
        else:
            attrs.append((0x76,) + self.text(u, "x.dwo"))
        r.shuffle(attrs)
        kids = []
        for i, d in enumerate(p.dies):
            if d["cu"] == c and d["x"] is None:
                kids += self.function(u, i)
        where, fix = self.where, self.fix
        self.tree(Node(CU, attrs, kids), ab, u, True, 0, 5, ident)
        assert self.fix == fix
        strs, stro, rng = Pool(r.choice([b"", b"\0junk\0"])), bytearray(), bytearray()
        for t in u["strs"]:
            stro += self.off(strs(t))
        if v >= 5:
            stro = self.length(len(stro) + 4) + struct.pack("<HH", 5, 0) + stro
            if u["lists"]:
                o, body = len(u["lists"]) * (8 if self.d64 else 4), struct.pack("<HBBI", 5, self.w, 0, len(u["lists"]))
                for l in u["lists"]:
                    body += self.off(o)
                    o += len(l)
                body += b"".join(u["lists"])
                rng = self.length(len(body)) + body
        self.dwos.append((ident, {".debug_info.dwo": self.info, ".debug_abbrev.dwo": ab.b + b"\0", ".debug_str.dwo": strs.b,
                                  ".debug_str_offsets.dwo": stro, ".debug_rnglists.dwo": rng}))
        self.info = info

    def emit(self, nd, abbrevs, u, again):
        al, data = [], []
        for a, f, x in nd.attrs:
            if isinstance(f, tuple):
                al.append((a, f[0], f[1]))
            else:
                al.append((a, f, None))
        kids = 1 if nd.kids else (1 if self.r.random() < .05 else 0)
        code = abbrevs.of(nd.tag, kids, al)
        here = self.pos0 + len(self.body)
        if nd.key is not None:
            self.local[nd.key] = here
            if not again:
                self.where[nd.key] = here
        self.body += uleb(code)
        for a, f, x in nd.attrs:
            if isinstance(x, tuple) and x[0] == "rng":
                x = self.off(u["at"][x[1]])
            elif isinstance(x, tuple):   # ("ref", die, size, relative)
                rel, target, size = x
                (self.rel if rel == "rel" else self.fix).append((self.pos0 + len(self.body), target, size))
                x = b"\0" * size
            self.body += x
        for k in nd.kids:
            self.emit(k, abbrevs, u, again)
        if kids:
            self.body += b"\0"

    def ref(self, u, target):
        d = self.p.dies[target]
        if d["cu"] == u["c"] and (u["split"] or self.r.random() < .8):
            return REF4, ("rel", target, 4)
        return REF_ADDR, ("abs", target, self.w if u["v"] == 2 else 8 if self.d64 else 4)

    def function(self, u, i):
        r, p = self.r, self.p
        d = p.dies[i]
        at = []
        if d["name"]:
            at.append((3,) + self.text(u, d["name"]))
        if d["link"]:
            at.append((r.choice([0x6e, 0x6e, 0x2007]),) + self.text(u, d["link"]))
        if d["decl"]:
            at.append((0x3b,) + self.num(u, d["decl"]))
            at.append((0x3a,) + self.num(u, u["idx"](r.choice(p.cus[d["cu"]]["files"]))))
        if d["sp"]:
            at.append((0x47,) + self.ref(u, d["sp"] - 1))
        if d["og"]:
            at.append((0x31,) + self.ref(u, d["og"] - 1))
        if d["k"] == "inl":
            if d["cf"]:
                at.append((0x58,) + self.num(u, u["idx"](d["cf"])))
                at.append((0x59,) + self.num(u, d["cl"], udata=False))
            if d["cx"]:
                at.append((0x2136,) + self.num(u, d["cx"], udata=False))
            if r.random() < .4:
                at.append((0x57, DATA1, b"\3"))
        else:
            at += r.sample([(0x3f, PRESENT if u["v"] >= 4 else FLAG, b"" if u["v"] >= 4 else b"\1"), (0x27, FLAG, b"\1"),
                            (0x40, EXPRLOC if u["v"] >= 4 else BLOCK1, b"\1\x9c"), (0x39, DATA1, b"\7"),
                            (0x40, BLOCK2, b"\1\0\x9c"), (0x2117, FLAG, b"\1")], r.choice([0, 1, 2]))
            if d.get("decl_only"):
                at.append((0x3c, FLAG, b"\1"))
            if d.get("abstract"):
                at.append((0x20, DATA1, b"\1"))
        r.shuffle(at)
        if d["rs"]:
            k = r.randint(0, len(at))
            at[k:k] = self.place(u, d["rs"])
        kids = []
        for _ in range(r.choice([0, 0, 1, 2])):
            kids.append(Node(r.choice([PARM, VAR]), [(3,) + self.text(u, "p")] +
                             r.choice([[], [(2, EXPRLOC if u["v"] >= 4 else BLOCK1, b"\2\x91\1")], [(0x1c, SDATA, sleb(-5))]])))
        for j, x in enumerate(p.dies):
            if x["x"] == i and x["cu"] == d["cu"]:
                n = self.function(u, j)
                if x["k"] == "inl" and r.random() < .3:
                    n = [Node(BLK, self.place(u, x["rs"]), n)]
                elif x["k"] == "sub" and r.random() < .5:
                    n = [Node(STRUCT, [(3,) + self.text(u, "local")], n)]
                kids += n
        if d["rs"] and r.random() < .2:
            kids.append(Node(SITE, [(3,) + self.text(u, "s")]))
        nd = Node(SUB if d["k"] == "sub" else INL, at, kids, key=i)
        if d.get("cls"):
            return [Node(STRUCT, [(3,) + self.text(u, "cls"), (0xb, DATA1, b"\1")], [nd])]
        if d["k"] == "sub" and d["x"] is None and r.random() < .15:
            return [Node(NS, [(3,) + self.text(u, "ns")], [nd])]
        return [nd]

    # -- line tables
    def table(self, u, cu):
        r, p, v = self.r, self.p, u["v"]
        lv = {2: [2], 3: [2, 3], 4: [2, 3, 4, 4], 5: [5, 5, 5, 4]}[v]
        lv = r.choice(lv)
        at = len(self.line)
        minl = p.g if r.random() < .8 else 1
        ob = r.choice([10, 13]) if lv < 3 else 13
        lb, lr = r.choice([(-5, 14), (-3, 12), (0, 4), (-1, 3), (-10, 20), (1, 10)])
        # directories and files
        dirs, files = [], []      # as numbered from 0 (DWARF 5) or 1
        zero = 0 if lv >= 5 else 1
        if lv >= 5:
            dirs.append(cu["comp"] or "/zero")
        number = {}
        pool = []
        for f in cu["files"]:
            d = p.files[f - 1]["d"]
            if d not in pool and (d or lv >= 5):
                pool.append(d)
        pool += r.sample(["unused"], r.randint(0, 1))
        r.shuffle(pool)
        dirs += pool
        fl = list(cu["files"])
        r.shuffle(fl)
        if lv >= 5 and r.random() < .6:
            fl = [fl[0]] + fl
        for f in fl:
            number.setdefault(f, []).append(len(files) + zero)
            d = p.files[f - 1]["d"]
            di = 0 if (d == "" and lv < 5) else dirs.index(d) + zero
            files.append((p.files[f - 1]["f"], di))
        # In a DWARF 5 table "" is a directory of its own here
        h = bytearray()
        h += bytes([minl]) + (b"\1" if lv >= 4 else b"") + bytes([r.choice([0, 1]), lb & 255, lr, ob])
        h += bytes([0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1][:ob - 1])
        if lv >= 5:
            def s(form, t):
                if form == STRING:
                    return t.encode() + b"\0"
                return self.off((self.lstr if form == LINE_STRP else self.str)(t))
            df = r.choice([STRING, LINE_STRP, STRP])
            h += b"\1\1" + uleb(df) + uleb(len(dirs)) + b"".join(s(df, x) for x in dirs)
            ff = r.choice([STRING, LINE_STRP, STRP])
            xf = r.choice([UDATA, DATA1, DATA2])
            cols = [(1, ff), (2, xf)]
            if r.random() < .4:
                cols.append((5, DATA16))
            if r.random() < .3:
                cols.append(r.choice([(3, UDATA), (4, UDATA), (3, DATA4), (4, DATA8)]))
            r.shuffle(cols)
            h += bytes([len(cols)]) + b"".join(uleb(a) + uleb(b) for a, b in cols) + uleb(len(files))
            for n, di in files:
                for a, b in cols:
                    if a == 1:
                        h += s(b, n)
                    elif a == 2:
                        h += uleb(di) if b == UDATA else di.to_bytes(1 if b == DATA1 else 2, "little")
                    else:
                        h += {DATA16: b"\xaa" * 16, UDATA: uleb(300), DATA4: b"\1\2\3\4", DATA8: b"\1" * 8}[b]
        else:
            for x in dirs:
                h += x.encode() + b"\0"
            h += b"\0"
            for n, di in files:
                h += n.encode() + b"\0" + uleb(di) + uleb(r.choice([0, 1234567])) + uleb(r.choice([0, 99]))
            h += b"\0"
        idx = lambda f: r.choice(number[f])
        prog = self.program(cu, minl, ob, lb, lr, idx)
        body = struct.pack("<H", lv) + (bytes([self.w, 0]) if lv >= 5 else b"") + self.off(len(h)) + h + prog
        self.line += self.length(len(body)) + body
        return idx, at

    def program(self, cu, minl, ob, lb, lr, idx):
        r, out = self.r, bytearray()
        const = (255 - ob) // lr
        seqs = list(cu["seqs"])
        if r.random() < .2:   # code the linker dropped
            seqs.insert(r.randint(0, len(seqs)), "dead")
        for s in seqs:
            dead = s == "dead"
            if dead:
                s = {"rows": [[0, cu["files"][0], 9, 0], [minl, cu["files"][0], 8, 0]], "end": 2 * minl}
            base = 0 if dead else self.base
            a, f, l, x, fresh = 0, 1, 1, 0, True
            for ra, rf, rl, rx in s["rows"] + [[s["end"], None, None, None]]:
                to = base + ra
                last = rf is None
                if r.random() < .15:
                    out += r.choice([b"\6", b"\7", b"\5\x09", b"\5\x80\x01"] + ([b"\x0a", b"\x0b", b"\x0c\3"] if ob > 12 else []))
                if fresh or r.random() < .08:
                    out += b"\0" + uleb(1 + self.w) + b"\2" + self.adr(to)
                    a, fresh = to, False
                if not last:
                    fi = idx(rf)
                    if fi != f or r.random() < .05:
                        out += b"\4" + uleb_pad(fi, r)
                        f = fi
                    if rx != 0:
                        y = uleb(rx)
                        out += b"\0" + uleb(1 + len(y)) + b"\4" + y
                    step, dl = (to - a) // minl, rl - l
                    # a special opcode, perhaps after a constant step
                    if r.random() < .3 and step >= const:
                        out += b"\x08"
                        step -= const
                    op = dl - lb + lr * step + ob
                    if lb <= dl < lb + lr and op <= 255 and r.random() < .8:
                        out += bytes([op])
                    else:
                        if dl:
                            out += b"\3" + sleb(dl)
                        if step:
                            if step * minl < 65536 and r.random() < .2:
                                out += b"\x09" + struct.pack("<H", step * minl)
                            else:
                                out += b"\2" + uleb_pad(step, r)
                        out += b"\1"
                    a, l = to, rl
                else:
                    if to > a:
                        out += b"\2" + uleb((to - a) // minl)
                    out += b"\0\1\1"
        return bytes(out)


def save(elf):
    fd, path = tempfile.mkstemp()
    os.close(fd)
    try:
        elf.save(path)
        return open(path, "rb").read()
    finally:
        os.unlink(path)


def write(p, base, width, etype, first, more=None):
    """The bytes of the file, and of those it refers to."""
    r = p.r
    e = Enc(p, base, width, r.random() < .2 and all(c["v"] > 2 for c in p.cus))
    mach = elfgen.X86 if width == 8 else 3
    elf = elfgen.Elf(mach, etype, bits=8 * width)
    off = 4096
    elf.load(off, first, base - first + p.end)
    elf.section(".text", b"\x90" * p.end, base, 6, offset=off + base - first)
    secs = [(".debug_info", e.info), (".debug_abbrev", e.abbrev), (".debug_line", e.line), (".debug_str", e.str.b),
            (".debug_line_str", e.lstr.b), (".debug_ranges", e.ranges), (".debug_rnglists", e.rng), (".debug_addr", e.addr),
            (".debug_str_offsets", e.stro), (".debug_aranges", e.arng)]
    r.shuffle(secs)
    for n, b in secs:
        if b:
            elf.section(n, bytes(b))
    if more:
        more(elf)
    p.dwos = []
    for _, secs in e.dwos:
        x = elfgen.Elf(mach, 1, bits=8 * width)
        secs = [q for q in secs.items() if q[1]]
        r.shuffle(secs)
        for n, b in secs:
            x.section(n, bytes(b))
        p.dwos.append(save(x))
    return save(elf)
