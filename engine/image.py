"""Loader's view of the linker's output: independent parsers of the executable
formats over symbolic file contents."""
import terms as T
from terms import isc, sgn
import rel
from rel import L
from sai import AnalysisError

K = lambda v: L({}, v)


class Bad(Exception):
    """the output contradicts the format"""

    def __init__(self, key, msg, where=""):
        self.key, self.msg, self.where = key, msg, where


class Seg:
    def __init__(self, kind, addr, fpos, fsz, msz, name=""):
        self.kind, self.addr, self.fpos, self.fsz, self.msz, self.name = kind, addr, fpos, fsz, msz, name


class Out:
    """output file: tiling of write events, later writes override earlier ones"""

    def __init__(self, st, name):
        self.st = st
        self.ev = []
        end = K(0)
        self.over = []
        for e in st.user["out"][name]:
            pos = rel.lin(st, e[0], 64)
            n = rel.lin(st, e[1], 64) if not isc(e[1]) else K(e[1])
            d = pos.minus(end)
            wh = " < ".join("%s:%s" % (f, l) for f, l in reversed(e[4]))
            wh = "%s:%d" % (e[4][-1][0], e[5]) + " < " + " < ".join("%s:%s" % (e[4][i][0], e[4][i + 1][1]) for i in range(len(e[4]) - 2, -1, -1))
            if d.isconst() and d.c == 0:
                self.ev.append((pos, n, e[2], e[3], wh))
                end = end.plus(n)
            else:
                lo, hi = rel.rng(st, d)
                if lo > 0:
                    raise Bad("gap", "write at file position %s leaves a gap after %s" % (pos, end), wh)
                if hi > 0:
                    raise Bad("gap", "write at file position %s where the file ends at %s" % (pos, end), wh)
                # overwrite
                e2 = pos.plus(n)
                lo, hi = rel.rng(st, e2.minus(end))
                if lo > 0:
                    end = e2
                    self.ev.append((pos, n, e[2], e[3], wh))
                    continue
                if hi > 0:
                    raise Bad("overwrite", "partial overwrite at the end of file", wh)
                self.over.append((pos, n, e[2], e[3], wh))
        self.end = end

    def where(self, p):
        p = K(p) if isinstance(p, int) else p
        for e in self.ev:
            d = p.minus(e[0])
            if d.isconst() and d.c >= 0 and rel.rng(self.st, e[1].plus(K(-d.c)))[0] > 0:
                return e[4]
        return "main"

    def byte(self, p):
        """value (8-bit) at position L"""
        for e in reversed(self.over):
            d = p.minus(e[0])
            if d.isconst() and 0 <= d.c and e[1].isconst() and d.c < e[1].c:
                return e[3][d.c] if e[2] == "bytes" else e[3]
        for e in self.ev:
            d = p.minus(e[0])
            if d.isconst() and d.c >= 0 and (not e[1].isconst() or d.c < e[1].c):
                if not e[1].isconst():
                    lo, hi = rel.rng(self.st, e[1])
                    if d.c >= lo:
                        raise Bad("read", "position %s is not determined" % p)
                if e[2] == "rest":
                    raise Bad("read", "position %s lies in section contents" % p)
                return e[3][d.c] if e[2] == "bytes" else e[3]
        raise Bad("read", "nothing is written at file position %s" % (p,))

    def num(self, p, n):
        """little-endian number at p (int or L) -> L (exact, unsigned)"""
        if isinstance(p, int):
            p = K(p)
        t = K(0)
        for i in range(n):
            t = t.plus(rel.part(self.st, self.byte(p.plus(K(i))), 8), 1 << (8 * i))
        return rel.rem(self.st, t, 1 << (8 * n)) if t.integral() else t

    def con(self, p, n, what):
        v = self.num(p, n)
        if not v.isconst():
            raise Bad("field", "%s is not constant: %s" % (what, v), self.where(p))
        return v.c

    def bytes(self, p, n):
        return bytes(self.con(p + i, 1, "byte") for i in range(n))


def want(o, p, n, v, what):
    x = o.num(p, n)
    if not (x.isconst() and x.c == v):
        raise Bad("field:" + what.replace(" ", "-"), "%s is %s instead of %#x" % (what, x, v), o.where(p))


class Img:
    """segs, entry (L), mod (address modulus), code/data spaces"""
    mod = 1 << 32
    nul = 0


def flat(o, fmt, args):
    im = Img()
    bits = 16 if fmt in ("-tiny", "-flat16") else 32
    org = 0x100 if fmt == "-tiny" else args.get("origin", 0)
    org = K(org) if isinstance(org, int) else org
    im.segs = [Seg("rwx", org, K(0), o.end, o.end)]
    im.memend = None
    im.mod = 1 << bits
    b = o.byte(K(0))
    if isc(b) and b == 0xE9:
        n = bits // 8
        im.entry = rel.rem(o.st, org.plus(K(1 + n)).plus(o.num(1, n)), im.mod)
        im.jump = True
    else:
        im.entry = org
        im.jump = False
    im.entryfield = 0
    return im


def mz(o, fmt, args):
    im = Img()
    if o.bytes(0, 2) != b"MZ":
        raise Bad("field:magic", "no MZ signature", o.where(0))
    hdr = o.con(8, 2, "HdrSize") * 16
    want(o, 6, 2, 0, "relocation count")
    st = o.st
    cs = o.num(22, 2)
    ip = o.num(20, 2)
    ss = o.num(14, 2)
    sp = o.num(16, 2)
    im.ss, im.sp, im.hdr = ss, sp, hdr
    m20 = 1 << 20

    def seg(x):
        return rel.rem(st, x.scale(16), m20)
    phys = rel.rem(st, x20(st, cs).plus(ip), m20)
    im.entry_phys = phys
    im.min = o.num(10, 2)
    im.max = o.num(12, 2)
    im.pages, im.part = o.num(4, 2), o.num(2, 2)
    im.entryfield = 20
    if fmt == "-small":
        im.mod = 1 << 16
        cb = x20(st, cs)
        db = x20(st, ss)
        im.entry = ip
        # code: file position = hdr + (CS*16 + A) mod 2^20
        im.spaces = {"code": rel.rem(st, cb.plus(K(hdr)), m20), "data": rel.rem(st, db.plus(K(hdr)), m20)}
    else:
        im.entry = None
        im.spaces = None
    return im


def x20(st, seg):
    return rel.rem(st, seg.scale(16), 1 << 20)


def elf(o, fmt, args):
    im = Img()
    if o.bytes(0, 7) != b"\x7fELF\1\1\1":
        raise Bad("field:ident", "bad ELF identification", o.where(0))
    want(o, 16, 2, 2, "e_type")
    want(o, 18, 2, 3, "e_machine")
    want(o, 20, 4, 1, "e_version")
    want(o, 40, 2, 52, "e_ehsize")
    want(o, 42, 2, 32, "e_phentsize")
    want(o, 48, 2, 0, "e_shnum")
    im.entry = o.num(24, 4)
    im.entryfield = 24
    ph = o.con(28, 4, "e_phoff")
    n = o.con(44, 2, "e_phnum")
    im.segs = []
    for i in range(n):
        b = ph + 32 * i
        want(o, b, 4, 1, "p_type")
        off, va, pa, fs, ms = [o.num(b + 4 + 4 * k, 4) for k in range(5)]
        fl = o.con(b + 24, 4, "p_flags")
        al = o.con(b + 28, 4, "p_align")
        d = off.minus(va)
        r = rel.rem(o.st, d, al or 1)
        if not (r.isconst() and r.c == 0):
            raise Bad("congruent", "p_offset %s and p_vaddr %s are not congruent modulo p_align" % (off, va), o.where(b + 4))
        if rel.rng(o.st, ms.minus(fs))[0] < 0:
            raise Bad("memsz", "p_memsz %s may be less than p_filesz %s" % (ms, fs), o.where(b + 16))
        if rel.rng(o.st, off.plus(fs).minus(o.end))[1] > 0:
            raise Bad("filesz", "segment %d ends at %s, beyond the end of the file %s" % (i, off.plus(fs), o.end), o.where(b + 16))
        kind = ("r" if fl & 4 else "") + ("w" if fl & 2 else "") + ("x" if fl & 1 else "")
        im.segs.append(Seg(kind, va, off, fs, ms, "segment %d" % i))
    return im


def cstr(b):
    return b.split(b"\0")[0].decode("latin1")


def pe(o, fmt, args):
    im = Img()
    if o.bytes(0, 2) != b"MZ":
        raise Bad("field:magic", "no MZ stub", o.where(0))
    p = o.con(60, 4, "e_lfanew")
    if o.bytes(p, 4) != b"PE\0\0":
        raise Bad("field:signature", "no PE signature at the offset the stub gives", o.where(p))
    want(o, p + 4, 2, 0x14c, "Machine")
    n = o.con(p + 6, 2, "NumberOfSections")
    want(o, p + 20, 2, 224, "SizeOfOptionalHeader")
    im.chars = o.con(p + 22, 2, "Characteristics")
    oh = p + 24
    want(o, oh, 2, 0x10b, "Magic")
    base = o.num(oh + 28, 4)
    salign = o.con(oh + 32, 4, "SectionAlignment")
    falign = o.con(oh + 36, 4, "FileAlignment")
    im.base = base
    im.entry = o.num(oh + 16, 4).plus(base)
    im.entryfield = oh + 16
    im.soi = o.num(oh + 56, 4)
    hdrs = o.con(oh + 60, 4, "SizeOfHeaders")
    im.subsys = o.con(oh + 68, 2, "Subsystem")
    im.dllchars = o.con(oh + 70, 2, "DllCharacteristics")
    want(o, oh + 92, 4, 16, "NumberOfRvaAndSizes")
    im.dirs = [(o.num(oh + 96 + 8 * i, 4), o.num(oh + 100 + 8 * i, 4)) for i in range(16)]
    if not (im.chars & 2 and im.chars & 0x100):
        raise Bad("field:chars", "image not marked executable 32-bit", o.where(p + 22))
    st = o.st
    im.segs = []
    im.secnames = []
    sh = oh + 224
    if sh + 40 * n > hdrs:
        raise Bad("headers", "section table exceeds SizeOfHeaders", o.where(p + 6))
    va = K(salign)
    prevend = K(hdrs)
    for i in range(n):
        b = sh + 40 * i
        nm = cstr(o.bytes(b, 8))
        vs, v, rs, rp = [o.num(b + 8 + 4 * k, 4) for k in range(4)]
        fl = o.con(b + 36, 4, "section characteristics")
        w = o.where(b + 8)
        if not nm:
            raise Bad("section", "section %d of %d has no name" % (i, n), w)
        d = v.minus(va)
        if not (d.isconst() and d.c == 0):
            raise Bad("va:" + nm, "section %s is at RVA %s but the previous section ends at %s" % (nm, v, va), w)
        for x, al, what in ((rp, falign, "PointerToRawData"), (rs, falign, "SizeOfRawData"), (v, salign, "VirtualAddress")):
            r = rel.rem(st, x, al)
            if not (r.isconst() and r.c == 0):
                raise Bad("align:" + nm, "%s of %s (%s) is not a multiple of %d" % (what, nm, x, al), w)
        if rel.rng(st, rp.plus(rs).minus(o.end))[1] > 0:
            raise Bad("raw:" + nm, "raw data of %s ends at %s, the file at %s" % (nm, rp.plus(rs), o.end), w)
        if rel.rng(st, vs.minus(rs))[0] < 0:
            raise Bad("vsize:" + nm, "virtual size %s of %s is less than its raw size %s" % (vs, nm, rs), w)
        if rel.rng(st, rp.minus(prevend))[0] < 0:
            raise Bad("raw:" + nm, "raw data of %s at %s overlaps the previous data up to %s" % (nm, rp, prevend), w)
        prevend = rp.plus(rs)
        kind = ("r" if fl & 0x40000000 else "") + ("w" if fl & 0x80000000 else "") + ("x" if fl & 0x20000000 else "")
        if (fl & 0x20 != 0) != ("x" in kind):
            raise Bad("chars:" + nm, "characteristics %#x of %s" % (fl, nm), w)
        im.segs.append(Seg(kind, base.plus(v), rp, rs, vs, nm))
        im.secnames.append(nm)
        e = v.plus(vs)
        va = e.plus(K(salign - 1)).minus(rel.rem(st, e.plus(K(salign - 1)), salign))
    d = im.soi.minus(va)
    if not (d.isconst() and d.c == 0):
        raise Bad("sizeofimage", "SizeOfImage %s, the last section ends at %s" % (im.soi, va), o.where(oh + 56))
    # unused slots of the table must be empty up to SizeOfHeaders
    for b in range(sh + 40 * n, hdrs):
        x = o.byte(K(b))
        if not (isc(x) and x == 0):
            raise Bad("slack", "byte %d after the section table is not zero" % b, o.where(b))
    return im


def aout(o, fmt, args):
    im = Img()
    h = args.get("stub", 0)
    want(o, h, 4, 0x640107, "magic")
    text, data, bss, syms, entry, tr, dr = [o.num(h + 4 + 4 * i, 4) for i in range(7)]
    im.entry = entry
    im.entryfield = h + 20
    im.hdr = h
    im.tr, im.dr = tr, dr
    im.text, im.data = text, data
    f = K(h + 32)
    im.segs = [Seg("rx", K(0), f, text, text, "text")]
    im.segs.append(Seg("rw", text, f.plus(text), data, data.plus(bss), "data"))
    end = f.plus(text).plus(data).plus(tr).plus(dr)
    d = end.minus(o.end)
    if not (d.isconst() and d.c == 0):
        raise Bad("length", "header accounts for %s bytes, the file has %s" % (end, o.end), o.where(h))
    im.relpos = f.plus(text).plus(data)
    return im


def mach(o, fmt, args):
    im = Img()
    want(o, 0, 4, 0xfeedface, "magic")
    want(o, 4, 4, 7, "cputype")
    want(o, 12, 4, 2, "filetype")
    n = o.con(16, 4, "ncmds")
    tot = o.con(20, 4, "sizeofcmds")
    p = 28
    im.segs = []
    im.entry = None
    st = o.st
    last = None
    for i in range(n):
        cmd = o.con(p, 4, "cmd")
        sz = o.con(p + 4, 4, "cmdsize")
        w = o.where(p)
        if cmd == 1:
            nm = cstr(o.bytes(p + 8, 16))
            va, ms, fo, fs = [o.num(p + 24 + 4 * k, 4) for k in range(4)]
            prot = o.con(p + 44, 4, "initprot")
            ns = o.con(p + 48, 4, "nsects")
            if sz != 56 + 68 * ns:
                raise Bad("cmdsize", "segment command size %d for %d sections" % (sz, ns), w)
            kind = ("r" if prot & 1 else "") + ("w" if prot & 2 else "") + ("x" if prot & 4 else "")
            if rel.rng(st, ms.minus(fs))[0] < 0:
                raise Bad("vmsize:" + nm, "vmsize %s of %s is less than filesize %s" % (ms, nm, fs), w)
            if rel.rng(st, fo.plus(fs).minus(o.end))[1] > 0:
                raise Bad("file:" + nm, "segment %s ends at %s, the file at %s" % (nm, fo.plus(fs), o.end), w)
            if last is not None and rel.rng(st, va.minus(last))[0] < 0:
                raise Bad("order:" + nm, "segment %s at %s overlaps the previous one ending at %s" % (nm, va, last), w)
            last = va.plus(ms)
            for k, x in (("vmaddr", va), ("vmsize", ms), ("fileoff", fo)):
                r = rel.rem(st, x, 4096)
                if not (r.isconst() and r.c == 0):
                    raise Bad("page:" + nm, "%s of %s (%s) is not page aligned" % (k, nm, x), w)
            s = Seg(kind, va, fo, fs, ms, nm)
            for k in range(ns):
                q = p + 56 + 68 * k
                a, z, off = o.num(q + 32, 4), o.num(q + 36, 4), o.num(q + 40, 4)
                if cstr(o.bytes(q + 16, 16)) != nm:
                    raise Bad("sect:" + nm, "section %d names another segment" % k, w)
                d = off.minus(fo).minus(a.minus(va))
                if not (d.isconst() and d.c == 0):
                    raise Bad("sect:" + nm, "section offset %s and address %s disagree with segment %s" % (off, a, nm), w)
                if rel.rng(st, a.minus(va))[0] < 0 or rel.rng(st, a.plus(z).minus(va.plus(ms)))[1] > 0:
                    raise Bad("sect:" + nm, "section [%s, +%s) lies outside its segment" % (a, z), w)
            if kind and nm != "__LINKEDIT":
                im.segs.append(s)
        elif cmd == 2:
            so, nsy, sto, sts = [o.num(p + 8 + 4 * k, 4) for k in range(4)]
            for pos, ln, what in ((so, K(12 * o.con(p + 12, 4, "nsyms")), "symbols"), (sto, sts, "strings")):
                if rel.rng(st, pos.plus(ln).minus(o.end))[1] > 0:
                    raise Bad("symtab", "%s end at %s, the file at %s" % (what, pos.plus(ln), o.end), w)
            im.symoff, im.stroff, im.nsyms = so, sto, o.con(p + 12, 4, "nsyms")
        elif cmd == 5:
            if sz != 80:
                raise Bad("cmdsize", "thread command size %d" % sz, w)
            want(o, p + 8, 4, 1, "flavor")
            want(o, p + 12, 4, 16, "count")
            im.entry = o.num(p + 16 + 40, 4)
            im.entryfield = p + 56
        else:
            raise Bad("cmd", "unexpected load command %#x" % cmd, w)
        p += sz
    if p != 28 + tot:
        raise Bad("sizeofcmds", "load commands take %d bytes, header says %d" % (p - 28, tot), o.where(20))
    if im.entry is None:
        raise Bad("entry", "no thread command", o.where(16))
    im.ncmdend = p
    return im


LOAD = {"-tiny": flat, "-flat16": flat, "-flat32": flat, "-small": mz, "-huge": mz, "-unreal": mz, "-elf": elf, "-pe": pe,
        "-aout": aout, "-mach": mach}
