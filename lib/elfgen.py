"""Writes small ELF64 little-endian files with exactly the given layout."""
import struct

X86, ARM64 = 62, 183
REL, EXEC, DYN = 1, 2, 3
PROGBITS, SYMTAB, STRTAB, RELA, NOTE, NOBITS, DYNSYM = 1, 2, 3, 4, 7, 8, 11
BB_ADDR_MAP = 0x6fff4c0a
W, A, X = 1, 2, 4
PT_LOAD = 1


class Elf:
    def __init__(self, machine=X86, etype=DYN, entry=0, bits=64):
        self.paged = False   # string tables at the start of a page
        self.machine, self.etype, self.entry, self.bits = machine, etype, entry, bits
        self.secs = []     # dicts
        self.phdrs = []    # (type, flags, offset, vaddr, filesz, memsz, align)
        self.syms = []     # (name, value, size, type, bind, secname or int)
        self.dynsyms = []

    def section(self, name, data=b"", addr=0, flags=0, type=PROGBITS, offset=None, align=1, link=None, info=0,
                entsize=0, size=None):
        self.secs.append(dict(name=name, data=data, addr=addr, flags=flags, type=type, offset=offset, align=align,
                              link=link, info=info, entsize=entsize, size=len(data) if size is None else size))
        return self

    def load(self, offset, vaddr, memsz, flags=5, filesz=None, align=1, type=PT_LOAD):
        self.phdrs.append((type, flags, offset, vaddr, memsz if filesz is None else filesz, memsz, align))
        return self

    def symbol(self, name, value, size, type=2, bind=1, sec=".text", dyn=False):
        (self.dynsyms if dyn else self.syms).append((name, value, size, type, bind, sec))
        return self

    def build_id(self, raw, secname=".note.gnu.build-id", owner=b"GNU\0"):
        data = struct.pack("<III", len(owner), len(raw), 3) + owner + raw + b"\0" * (-len(raw) % 4)
        return self.section(secname, data, type=NOTE, flags=A, align=4)

    def _symtab(self, name, strname, type, syms, idx):
        ent = 24 if self.bits == 64 else 16
        st, tab = bytearray(b"\0"), bytearray(ent)
        syms = sorted(syms, key=lambda s: s[4] != 0)  # local first; stable
        nlocal = 1 + sum(1 for s in syms if s[4] == 0)
        for n, v, sz, t, b, sec in syms:
            o = len(st)
            st += n.encode() + b"\0"
            shndx = sec if isinstance(sec, int) else idx[sec]
            tab += (struct.pack("<IBBHQQ", o, (b << 4) | t, 0, shndx, v, sz) if ent == 24
                    else struct.pack("<IIIBBH", o, v, sz, (b << 4) | t, 0, shndx))
        self.section(name, bytes(tab), type=type, link=strname, info=nlocal, entsize=ent, align=8)
        self.section(strname, bytes(st), type=STRTAB)

    def save(self, path):
        idx = {}
        for i, s in enumerate(self.secs):
            idx.setdefault(s["name"], i + 1)
        n0 = len(self.secs)
        if self.syms:
            self._symtab(".symtab", ".strtab", SYMTAB, self.syms, idx)
        if self.dynsyms:
            self._symtab(".dynsym", ".dynstr", DYNSYM, self.dynsyms, idx)
        names = bytearray(b"\0")
        self.section(".shstrtab", b"", type=STRTAB)
        for i, s in enumerate(self.secs):
            idx.setdefault(s["name"], i + 1)
            s["nameoff"] = len(names)
            names += s["name"].encode() + b"\0"
        self.secs[-1]["data"] = bytes(names)
        self.secs[-1]["size"] = len(names)
        w = self.bits == 64
        eh, ph, sh = (64, 56, 64) if w else (52, 32, 40)
        hdr = eh + ph * len(self.phdrs)
        pos = hdr
        for s in self.secs:
            if s["offset"] is not None:
                pos = max(pos, s["offset"] + (0 if s["type"] == NOBITS else len(s["data"])))
        for s in self.secs:
            if s["offset"] is None:
                pos = (pos + 15) & ~15
                if s["type"] == STRTAB and self.paged:
                    pos = (pos + 4095) & ~4095
                s["offset"] = pos
                pos += len(s["data"])
        shoff = (pos + 15) & ~15
        out = bytearray(shoff + sh * (len(self.secs) + 1))
        ident = b"\x7fELF" + (b"\x02" if w else b"\x01") + b"\x01\x01" + b"\0" * 9
        out[0:eh] = struct.pack("<16sHHIQQQIHHHHHH" if w else "<16sHHIIIIIHHHHHH", ident, self.etype, self.machine, 1,
                                self.entry, eh if self.phdrs else 0, shoff, 0, eh, ph, len(self.phdrs), sh,
                                len(self.secs) + 1, len(self.secs))
        for i, p in enumerate(self.phdrs):
            t, fl, off, va, fs, ms, al = p
            out[eh + ph * i:eh + ph * (i + 1)] = (struct.pack("<IIQQQQQQ", t, fl, off, va, va, fs, ms, al) if w
                                                 else struct.pack("<IIIIIIII", t, off, va, va, fs, ms, fl, al))
        for i, s in enumerate(self.secs):
            if s["type"] != NOBITS:
                out[s["offset"]:s["offset"] + len(s["data"])] = s["data"]
            link = s["link"]
            link = 0 if link is None else (link if isinstance(link, int) else idx[link])
            o = shoff + sh * (i + 1)
            out[o:o + sh] = struct.pack("<IIQQQQIIQQ" if w else "<IIIIIIIIII", s["nameoff"], s["type"], s["flags"], s["addr"],
                                        s["offset"], s["size"], link, s["info"], s["align"], s["entsize"])
        with open(path, "wb") as f:
            f.write(out)
        del self.secs[n0:]
