"""Analysis of the linker from main() on abstract object files.

Object files have concrete structure and symbolic contents; section sizes,
symbol values and relocation addends may be symbolic.  The output is the list of
write events at symbolic file positions.
"""
import struct
import terms as T
from terms import isc, mask, sgn
import sai, stdio, rel, build
from sai import P, AnalysisError, Interp, Forks, END, CALL

PROGBITS, NOBITS, SYMTAB, STRTAB, REL = 1, 8, 2, 3, 9
W_, A_, X_ = 1, 2, 4
R32, RPC32, R16, RPC16 = 1, 2, 20, 21
LOCAL, GLOBAL = 0, 1
NS = 160   # bytes of a symbolic-size section that are really copied


class Sect:
    def __init__(self, name, size, flags=A_, align=4, typ=PROGBITS, rels=(), data=None):
        """size: int or (symbol name, lo, hi);  rels: (offset, symbol, type); data: dict off -> byte"""
        self.name, self.size, self.flags, self.align, self.typ = name, size, flags, align, typ
        self.rels = list(rels)
        self.data = data or {}


def TEXT(size, rels=(), align=16, name=".text", data=None):
    return Sect(name, size, A_ | X_, align, PROGBITS, rels, data)


def RODATA(size, rels=(), align=4, name=".rodata", data=None):
    return Sect(name, size, A_, align, PROGBITS, rels, data)


def DATA(size, rels=(), align=4, name=".data", data=None):
    return Sect(name, size, A_ | W_, align, PROGBITS, rels, data)


def BSS(size, align=4, name=".bss"):
    return Sect(name, size, A_ | W_, align, NOBITS)


class Obj:
    """syms: (name, section index in sects | None (undefined) | int>=0xff00, value, binding[, type])"""

    def __init__(self, name, sects, syms):
        self.name, self.sects, self.syms = name, sects, syms

    def image(self, base=0):
        """-> (size, entries (off, n, value), ranges for contents, intervals)"""
        ns = len(self.sects)
        names = b"\0"
        noff = {}

        def sn(s):
            nonlocal names
            if s not in noff:
                noff[s] = len(names)
                names += s.encode() + b"\0"
            return noff[s]
        strs = b"\0"
        hdr = [None]
        ents = []
        ivals = {}
        contents = []
        # section symbols first (local), then locals, then globals
        symtab = [(0, 0, 0, 0, 0)]
        self.symidx = {}
        for i in range(ns):
            self.symidx[("sect", i)] = len(symtab)
            symtab.append((0, 0, 0, 3, i + 1))
        order = sorted(range(len(self.syms)), key=lambda k: self.syms[k][3])
        info = None
        for k in order:
            s = self.syms[k]
            name, sec, val, bind = s[:4]
            if bind == GLOBAL and info is None:
                info = len(symtab)
            o = len(strs)
            strs += name.encode() + b"\0"
            self.symidx.setdefault(name, len(symtab))
            shndx = 0 if sec is None else sec if sec >= 0xff00 else sec + 1
            if not isinstance(val, int):
                ivals[T.sym(val[0], 32)] = (val[1], val[2])
                val = T.sym(val[0], 32)
            symtab.append((o, val, 0, ((bind << 4) | (s[4] if len(s) > 4 else 0)) if len(s) < 6 else s[5], shndx))
        if info is None:
            info = len(symtab)
        # section list: null, sects, rels, symtab, strtab, shstrtab
        shs = [(0,) * 10]
        relsec = [i for i in range(ns) if self.sects[i].rels]
        nsym = 1 + ns + len(relsec)
        pos = 52
        data = []
        for i, s in enumerate(self.sects):
            size = s.size
            span = 0
            if not isinstance(size, int):
                span = NS
                ivals[T.sym(size[0], 32)] = (size[1], size[2])
                size = T.sym(size[0], 32)
            elif s.typ != NOBITS:
                span = min(size, 1 << 20)
            if s.typ != NOBITS:
                contents.append((pos, pos + span, i))
            shs.append((sn(s.name), s.typ, s.flags, 0, pos, size, 0, 0, s.align, 0))
            if s.typ != NOBITS:
                for o, v in s.data.items():
                    ents.append((base + pos + o, 1, v))
                pos += span
        pos = (pos + 3) & ~3
        for i in relsec:
            b = []
            for off, sy, ty in self.sects[i].rels:
                si = sy if isinstance(sy, int) else self.symidx[sy]
                if isinstance(off, tuple):
                    ivals[T.sym(off[0], 32)] = (off[1], off[2])
                    off = T.sym(off[0], 32)
                b.append((off, si << 8 | ty if isinstance(ty, int) else T.cat([(si, 24), (T.sym(ty, 8), 8)])))
            shs.append((sn(".rel" + self.sects[i].name), REL, 0, 0, pos, 8 * len(b), nsym, i + 1, 4, 8))
            for o, inf in b:
                ents.append((base + pos, 4, o))
                ents.append((base + pos + 4, 4, inf))
                pos += 8
        shs.append((sn(".symtab"), SYMTAB, 0, 0, pos, 16 * len(symtab), nsym + 1, info, 4, 16))
        for o, v, sz, inf, shndx in symtab:
            for f, n in ((o, 4), (v, 4), (sz, 4), (inf, 1), (0, 1), (shndx, 2)):
                ents.append((base + pos, n, f))
                pos += n
        shs.append((sn(".strtab"), STRTAB, 0, 0, pos, len(strs), 0, 0, 1, 0))
        for j, c in enumerate(strs):
            ents.append((base + pos + j, 1, c))
        pos += len(strs)
        k = sn(".shstrtab")
        shs.append((k, STRTAB, 0, 0, pos, len(names), 0, 0, 1, 0))
        for j, c in enumerate(names):
            ents.append((base + pos + j, 1, c))
        pos = (pos + len(names) + 3) & ~3
        shoff = pos
        for h in shs:
            for f in h:
                ents.append((base + pos, 4, f))
                pos += 4
        eh = b"\x7fELF\1\1\1" + bytes(9) + struct.pack("<HHIIIIIHHHHHH", 1, 3, 1, 0, 0, shoff, 0, 52, 0, 0, 40, len(shs), len(shs) - 1)
        for j, c in enumerate(eh):
            ents.append((base + j, 1, c))
        self.contents = [(base + a, base + b, i) for a, b, i in contents]
        return pos, ents, ivals

    def default(self):
        cs = list(self.contents)
        name = self.name
        sects = self.sects

        def d(st, o, off, n):
            for a, b, i in cs:
                if a <= off < b:
                    if n != 1:
                        return T.cat([(T.sym("c:%s:%d:%d" % (name, i, off + j - a), 8), 8) for j in reversed(range(n))])
                    return T.sym("c:%s:%d:%d" % (name, i, off - a), 8)
            return 0
        return d


class Archive:
    def __init__(self, name, objs, extra=True):
        self.name, self.objs, self.extra = name, objs, extra

    def image(self):
        ents = [(j, 1, c) for j, c in enumerate(b"!<arch>\n")]
        ivals = {}
        pos = 8
        self.contents = []
        mem = []
        if self.extra:
            mem.append((b"/               ", b"\0\0\0\1\0\0\0\0abc", None))
            mem.append((b"//              ", b"longname.o/\n", None))
        for k, o in enumerate(self.objs):
            nm = ("m%d.o/" % k).ljust(16).encode()
            pre = b""
            if k % 3 == 1 and self.extra:
                pre = b"bsdlongname.o\0\0\0"
                nm = b"#1/16           "
            elif k % 3 == 2 and self.extra:
                nm = b"/0              "
            mem.append((nm, pre, o))
        for nm, b, o in mem:
            hp = pos
            pos += 60
            p0 = pos
            for j, c in enumerate(b):
                ents.append((pos + j, 1, c))
            pos += len(b)
            if o is not None:
                n, e, iv = o.image(pos)
                ents += e
                ivals.update(iv)
                self.contents.append(o)
                pos += n
            h = nm + b"0           0     0     100644  " + str(pos - p0).ljust(10).encode() + b"`\n"
            assert len(h) == 60
            for j, c in enumerate(h):
                ents.append((hp + j, 1, c))
            pos += pos & 1
        return pos, ents, ivals

    def default(self):
        ds = [o.default() for o in self.contents]

        def d(st, o, off, n):
            for f in ds:
                v = f(st, o, off, n)
                if not isc(v):
                    return v
            return 0
        return d


def h_raws(I, st, a, line):
    """a section of symbolic size: analyse the copy of its first NS bytes (which hold every
    relocation), then advance both files over the rest"""
    size = a[2]
    if isc(size) or st.user.get("inraws"):
        return CALL
    lo, hi = rel.rng(st, rel.exact(st, size, 64))
    if lo < NS:
        raise AnalysisError("symbolic section smaller than the analysed part")
    frames = st.frames
    st.frames = []
    st.user["inraws"] = True
    st.user["ctx"] = tuple((f.fn.name, f.callline) for f in frames[-3:])
    fin = I.run(st, "RelocateAndWriteSection", [a[0], a[1], NS] + list(a[3:]))
    res = []
    for s in fin:
        if s.status != "ret":
            I.extra.append(s)
            continue
        s.status = None
        s.user["inraws"] = False
        s.frames = frames if s is st else [f.copy() for f in frames]
        name, pos, mode = stdio.handle(s, a[0], "write", line)
        rest = T.sub(64, size, NS)
        ev = s.user["out"][name][-1]
        stdio.emit(s, name, pos, rest, "rest", None, line)
        stdio.uset(s, "fh", a[0].obj, (name, T.add(64, pos, rest), mode))
        res.append((s, None))
    if not res:
        return END
    if len(res) == 1 and res[0][0] is st:
        return None
    return Forks(res)


def h_fill(I, st, a, line):
    byte, size, f = a
    r = rel.constant(st, size)
    if isc(r) and r <= 8192:
        return CALL if not st.user.get("fillev") else _fill(st, byte, r, f, line)
    if st.user.get("fail") == "armed" and not isc(r):
        return CALL
    return _fill(st, byte, r, f, line)


def _fill(st, byte, size, f, line):
    name, pos, mode = stdio.handle(st, f, "write", line)
    if isc(size) and size == 0:
        return None
    if not isc(byte):
        raise AnalysisError("fill with unknown byte")
    stdio.emit(st, name, pos, size, "fill", byte & 255, line)
    stdio.uset(st, "fh", f.obj, (name, T.add(64, pos, size), mode))
    return None


class Run:
    pass


def run(M, args, inputs, sym=None, maxsteps=20000000, fail=None, fillev=True, maxstates=4000, failmem=False, files=(), extra_hooks=None, recover=None):
    """analyse main(args) with the given input files; -> list of final states"""
    st = stdio.newstate(M)
    st.user["rel"] = rel
    st.user["fail"] = fail
    st.user["failmem"] = failmem
    st.user["fillev"] = fillev
    for k, (lo, hi) in (sym or {}).items():
        st.ivals[T.sym(k, 32)] = (lo, hi)
    for o in inputs:
        size, ents, ivals = o.image()
        stdio.addfile(st, o.name, size, ents, o.default())
        st.ivals.update(ivals)
    for name, b in files:
        stdio.addfile(st, name, len(b), [(i, 1, c) for i, c in enumerate(b)], "zero")
    hooks = dict(stdio.HOOKS)
    hooks["RelocateAndWriteSection"] = h_raws
    hooks["FillWithByte"] = h_fill
    if extra_hooks:
        hooks.update(extra_hooks)
    I = Interp(M, hooks, maxsteps=maxsteps, maxstates=maxstates)
    I.extra = []
    I.recover = recover
    a = stdio.argv(st, ["smlrl"] + list(args))
    try:
        fin = I.run(st, "main", a)
    except AnalysisError as e:
        e.short = getattr(I, "short", None)
        raise
    return I, fin + I.extra


def ok(st):
    return (st.status == "ret" and isc(st.ret) and st.ret == 0) or (st.status == ("exit", 0))


def failed(st):
    return isinstance(st.status, tuple) and st.status[1] not in (0,) or (st.status == "ret" and isc(st.ret) and st.ret != 0)


def message(st):
    for x in reversed(st.user["io"]):
        if x[0] == "print" and x[1]:
            return x[1].strip()
    return ""


def where(st):
    """call chain at exit"""
    fr = st.frames
    out = []
    line = None
    for f in reversed(fr):
        out.append("%s:%s" % (f.fn.name, line if line is not None else f.fn.blocks[f.bb][min(f.ip, len(f.fn.blocks[f.bb]) - 1)][3]))
        line = f.callline
    return " < ".join(out[:5]) or "main"
