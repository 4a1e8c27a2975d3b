"""L01..: the linker."""
import sys, time
import build, terms as T, rel, lnk, image, par, stdio
from terms import isc, sgn
from rel import L
from image import K, Bad
from lnk import Sect, TEXT, RODATA, DATA, BSS, Obj, Archive, R32, R16, RPC32, RPC16, LOCAL, GLOBAL, NOBITS, PROGBITS, A_, W_, X_
from sai import AnalysisError, isfault

F16 = ("-tiny", "-flat16", "-small")
FORMATS = ("-tiny", "-small", "-huge", "-unreal", "-flat16", "-flat32", "-pe", "-elf", "-aout", "-mach")
LOCALREL = ("-DSHOULDNT_SUPPORT_LOCAL_RELS",)


def big(fmt):
    return fmt not in F16


def eq(st, a, b, m):
    d = rel.reduce_mod(a.minus(b), m) if a.integral() and b.integral() else a.minus(b)
    return d.isconst() and d.c == 0


def modval(v, m):
    if len(v.d) == 1 and v.c == 0:
        (a, k), = v.d.items()
        if k == 1 and a.kind == "rem" and a.m == m:
            return a.x
    return v


def symname(b):
    return b.args[0] if not isc(b) and b.op == "sym" else None


class Case:
    """one analysed link: objects, format, options"""

    def __init__(self, name, fmt, objs, opts=(), origin=None, extra=(), bss=True, sym=None, stack=None, entry="__start", loaded=None):
        self.name, self.fmt, self.objs, self.opts = name, fmt, objs, list(opts)
        self.origin, self.extra, self.bss, self.sym, self.stack, self.entry = origin, list(extra), bss, sym or {}, stack, entry
        self.loaded = loaded if loaded is not None else objs

    def args(self):
        a = [self.fmt, "-o", "out.bin"] + self.opts
        if self.origin is not None:
            a += ["-origin", self.origin]
        if not self.bss:
            a.append("-nobss")
        if self.stack is not None:
            a += ["-stack", self.stack]
        if self.entry != "__start":
            a += ["-entry", self.entry]
        return a + [o.name for o in self.loaded]


def addrefs(objs, fmt, refs, typ=None):
    """give every object references to every section, global and start/stop symbol"""
    a, pc = (R16, RPC16) if not big(fmt) else (R32, RPC32)
    step = 5 if big(fmt) else 3
    gl = []
    for o in objs:
        for s in o.syms:
            if s[3] == GLOBAL and s[1] is not None:
                gl.append(s[0])
    gl += [r for r in refs if r not in gl]
    for o in objs:
        have = {s[0] for s in o.syms}
        for g in gl:
            if g not in have:
                o.syms.append((g, None, 0, GLOBAL))
        for si, s in enumerate(o.sects):
            if s.typ != PROGBITS or s.size == 0:
                continue
            rels = []
            off = 4
            if s.flags & X_:
                tg = [("sect", i) for i in range(len(o.sects))] + gl + [x[0] for x in o.syms if x[3] == LOCAL]
                if fmt != "-pe" and si == min(i for i, q in enumerate(o.sects) if q.flags & X_):
                    tg.insert(1, 0)
            else:
                tg = [("sect", i) for i in range(len(o.sects))] + gl[:3]
            lim = (s.size if isinstance(s.size, int) else lnk.NS) - 5
            for k, t in enumerate(tg):
                for ty in ((a, pc) if k % 3 == 0 and s.flags & X_ and fmt != "-pe" or k % 4 == 0 and s.flags & X_ else (a,)):
                    if off > lim:
                        break
                    rels.append((off, t, ty))
                    off += step
            s.rels += rels
    return objs


def startstop(objs, fmt):
    names = []
    for o in objs:
        for s in o.sects:
            if s.flags & A_ and s.name not in names:
                names.append(s.name)
    refs = []
    for n in names:
        b = n.replace(".", "_")
        refs += ["__start_" + b, "__stop_" + b]
    refs += ["__start_allcode__", "__stop_allcode__"]
    if any(s.flags & A_ and not s.flags & X_ for o in objs for s in o.sects):
        refs += ["__start_alldata__", "__stop_alldata__"]
    if fmt in ("-tiny", "-small"):
        refs += ["__start_stack__"]
    if fmt == "-unreal":
        refs += ["__start__relod", "__stop__relod"]
    return refs


def rngs(fmt, lo=None, hi=None):
    if big(fmt):
        return lo or lnk.NS, hi or (0x6000 if fmt in ("-huge", "-unreal") else 0x100000)
    return lo or lnk.NS, hi or 2500


def variants(fmt, bss=True):
    lo, hi = rngs(fmt)

    def S(n, l=lo):
        return (n, l, hi)
    B = lambda n: (n, 1, hi)
    v = []

    def ent(i=0):
        return ("__start", i, ("ve", 0, 90), GLOBAL)
    # everything, two objects, mixed alignments
    v.append(("full", [
        Obj("a.o", [TEXT(S("t1")), RODATA(S("r1")), DATA(S("d1")), BSS(B("b1"))],
            [("loc", 2, ("vl", 0, 300), LOCAL), ent(), ("gd", 2, ("v1", 0, 100), GLOBAL), ("gb", 3, 4, GLOBAL)]),
        Obj("b.o", [BSS(B("b2"), align=16), DATA(S("d2"), align=8), RODATA(S("r2"), align=1), TEXT(S("t2"), align=2),
                    Sect(".text2", S("t3"), A_ | X_, 1), Sect(".dat2", S("d3"), A_ | W_, 16)],
            [("f2", 3, 7, GLOBAL), ("g2", 1, 8, GLOBAL), ("h2", 5, 2, GLOBAL)])]))
    v.append(("code", [Obj("a.o", [TEXT(S("t1"))], [ent()]), Obj("b.o", [TEXT(S("t2"), align=4)], [("f2", 0, 3, GLOBAL)])]))
    v.append(("codebss", [Obj("a.o", [TEXT(S("t1")), BSS(B("b1"))], [ent(), ("gb", 1, 0, GLOBAL)]),
                          Obj("b.o", [TEXT(S("t2")), BSS(B("b2"), align=8)], [("f2", 0, 0, GLOBAL)])]))
    v.append(("codero", [Obj("a.o", [TEXT(S("t1")), RODATA(S("r1"), align=16)], [ent(), ("gr", 1, 0, GLOBAL)])]))
    v.append(("robss", [Obj("a.o", [TEXT(S("t1")), RODATA(S("r1"), align=16), BSS(B("b1"))], [ent(), ("gr", 1, 0, GLOBAL)])]))
    v.append(("codedata", [Obj("a.o", [DATA(S("d1")), TEXT(S("t1"))], [("__start", 1, ("ve", 0, 90), GLOBAL)]),
                           Obj("b.o", [TEXT(("t2", lo, hi)), DATA(S("d2"), align=1)], [("f2", 0, 1, GLOBAL)])]))
    v.append(("databss", [Obj("a.o", [TEXT(S("t1")), DATA(S("d1"), align=2), BSS(B("b1"), align=1), BSS(B("b3"), name=".bss2")],
                              [ent(), ("gb", 2, 1, GLOBAL)])]))
    v.append(("empty", [Obj("a.o", [TEXT(S("t1")), RODATA(0), DATA(0, align=16), BSS(0)], [ent()]),
                        Obj("b.o", [TEXT(0), DATA(S("d2")), BSS(0, align=8 if bss else 4)], [("f2", 1, 0, GLOBAL)])]))
    if fmt == "-pe":
        for nm, sects in (("dllfull", [TEXT(S("t1")), RODATA(S("r1")), DATA(S("i1"), name=".dll_import1"), DATA(S("i2"), name=".dll_iat9"), DATA(S("d1")), BSS(B("b1"))]),
                          ("dllonly", [TEXT(S("t1")), DATA(S("i1"), name=".dll_hint")]),
                          ("dllbss", [TEXT(S("t1")), DATA(S("i1"), name=".dll_hint"), BSS(B("b1"))]),
                          ("dllro", [TEXT(S("t1")), RODATA(S("r1")), DATA(S("i1"), name=".dll_hint")]),
                          ("dlldata", [TEXT(S("t1")), DATA(S("i1"), name=".dll_hint"), DATA(S("d1"))])):
            v.append((nm, [Obj("a.o", sects, [ent()])]))
    if fmt == "-huge":
        v.append(("relot", [Obj("a.o", [TEXT(S("t1")), RODATA(S("r1"), name=".relot", align=1), RODATA(S("r2"), name=".relod", align=16), DATA(S("d1"), align=1)], [ent()]),
                            Obj("b.o", [TEXT(S("t2")), RODATA(S("r3"), name=".relot", align=1), RODATA(S("r4"), name=".relod", align=1)], [("f2", 0, 0, GLOBAL)])]))
    return v


def layout_cases(thorough):
    out = []
    for fmt in FORMATS:
        for nm, objs in variants(fmt):
            for bss in ((True, False)):
                if not bss and not any(s.typ == NOBITS for o in objs for s in o.sects):
                    continue
                kw = {}
                opts = []
                if fmt == "-pe":
                    opts = ["-norel"]
                out.append((fmt, nm, bss, opts, None))
        if fmt in ("-flat16", "-flat32"):
            out.append((fmt, "full", True, [], "0x7c00"))
            out.append((fmt, "full", True, [], "$org"))
        if fmt in ("-elf", "-pe", "-mach"):
            out.append((fmt, "full", True, ["-norel"] if fmt == "-pe" else [], "0x10000000"))
            out.append((fmt, "full", True, ["-norel"] if fmt == "-pe" else [], "$org"))
        if fmt in ("-tiny", "-small", "-huge", "-unreal"):
            out.append((fmt, "full", True, ["-stack", "$stk"], None))
    return out


def build_case(fmt, nm, bss, opts, origin):
    objs = dict(variants(fmt, bss))[nm]
    refs = startstop(objs, fmt)
    if fmt == "-small" and not any(s.flags & A_ and not s.flags & X_ for o in objs for s in o.sects):
        refs.remove("__start_stack__") if False else None
    addrefs(objs, fmt, refs)
    sym = {}
    if origin == "$org":
        sym["org"] = (0, 0x4000) if not big(fmt) else (0, 0x20000000)
    if "$stk" in opts:
        sym["stk"] = (8192, 20000)
    return Case("%s%s:%s%s%s" % (fmt, "" if bss else "-nobss", nm, ":org=" + origin if origin else "", ":stack" if sym.get("stk") else ""),
                fmt, objs, [o for o in opts], origin, bss=bss, sym=sym)


class Checker:
    def __init__(self, case, st, key):
        self.c, self.st, self.key = case, st, key
        self.v = []
        self.n = 0

    def bad(self, k, msg, where="main"):
        self.v.append((self.key + "|" + k, where, msg))

    def ob(self, ok, k, msg, where="main"):
        self.n += 1
        if not ok:
            self.bad(k, msg() if callable(msg) else msg, where)
        return ok

    def ge(self, a, b, k, what, where="main"):
        """a >= b"""
        lo, hi = rel.rng(self.st, a.minus(b))
        self.ob(lo >= 0, k, lambda: "%s: %s is not always >= %s (difference may be %s)" % (what, a, b, lo), where)

    def run(self):
        c, st = self.c, self.st
        try:
            self.o = o = image.Out(st, "out.bin")
            args = {}
            if c.origin == "$org":
                org = T.sym("org", 32)
                args["origin"] = rel.lin(st, org, 32)
            elif c.origin:
                args["origin"] = int(c.origin, 0)
            if getattr(c, "stubsize", None):
                args["stub"] = c.stubsize
            self.im = im = image.LOAD[c.fmt](o, c.fmt, args)
            self.sections()
            self.contents()
            self.layout()
            self.entry()
            if c.fmt in ("-small", "-huge", "-unreal"):
                self.dos()
        except Bad as b:
            self.bad(b.key, b.msg, b.where or "main")
        return self.v, self.n

    # ---- where each section's bytes went
    def sections(self):
        c, o = self.c, self.o
        self.pos = {}
        self.ev = {}
        names = {x.name: x for x in c.objs}
        firstb = {}
        for x in c.objs:
            for i, s in enumerate(x.sects):
                cov = {off + j for off, tg, ty in s.rels for j in range(4)}
                k = 0
                while k in cov or k in s.data:
                    k += 1
                firstb[(x.name, i)] = k
        for pos, n, kind, data, wh in o.ev:
            if kind != "bytes":
                continue
            for j, b in enumerate(data):
                s = symname(b)
                if s and s.startswith("c:"):
                    _, on, si, bn = s.split(":")
                    k = (on, int(si))
                    if k not in firstb:
                        self.bad("unneeded:" + on, "object %s is not needed by the program but part of it is in the output" % on, wh)
                        firstb[k] = -1
                    if int(bn) != firstb[k]:
                        continue
                    if k in self.pos:
                        self.bad("twice:%s.%d" % k, "section %s of %s is written more than once" % (names[on].sects[k[1]].name, on), wh)
                    self.pos[k] = pos.plus(K(j - int(bn)))
                    self.ev[k] = wh
        for x in c.objs:
            for i, s in enumerate(x.sects):
                if s.typ == PROGBITS and s.flags & A_ and s.size != 0:
                    self.ob((x.name, i) in self.pos, "missing:%s%s" % (x.name, s.name), "section %s of %s is not in the output" % (s.name, x.name))

    def addr_of(self, fpos, ex, size=None):
        """address the loader gives to a file position"""
        im, st = self.im, self.st
        if self.c.fmt == "-small":
            return fpos.minus(im.spaces["code" if ex else "data"]), None
        if self.c.fmt in ("-huge", "-unreal"):
            return fpos, None
        for s in im.segs:
            lo, hi = rel.rng(st, fpos.minus(s.fpos))
            if lo >= 0:
                e = fpos.plus(size if size is not None else K(1)).minus(s.fpos.plus(s.fsz))
                lo2, hi2 = rel.rng(st, e)
                if hi2 <= 0:
                    return s.addr.plus(fpos).minus(s.fpos), s
        raise Bad("unmapped", "file position %s (size %s) is in no loadable segment: %s" % (fpos, size, [(str(s.fpos), str(s.fsz)) for s in im.segs]), self.o.where(fpos))

    def size(self, s):
        return K(s.size) if isinstance(s.size, int) else rel.lin(self.st, T.sym(s.size[0], 32), 32)

    def contents(self):
        c, o, st, im = self.c, self.o, self.st, self.im
        self.S = {}
        self.A = {}
        self.seg = {}
        m = im.mod
        for (on, si), pos in self.pos.items():
            x = [y for y in c.objs if y.name == on][0]
            s = x.sects[si]
            sz = self.size(s)
            ex = bool(s.flags & X_)
            wh = self.ev[(on, si)]
            tag = "%s%s" % (on, s.name)
            a, seg = self.addr_of(pos, ex, sz)
            self.A[(on, si)] = a
            self.seg[(on, si)] = seg
            if seg is not None and c.fmt in ("-elf", "-pe", "-mach", "-aout"):
                if ex:
                    self.ob("x" in seg.kind, "perm:" + tag, "code section %s lies in segment %s without execute permission" % (tag, seg.name), wh)
                else:
                    self.ob("x" not in seg.kind, "perm:" + tag, "data section %s lies in executable segment %s" % (tag, seg.name), wh)
                if s.flags & W_:
                    self.ob("w" in seg.kind, "perm:" + tag, "writable section %s lies in read-only segment %s" % (tag, seg.name), wh)
            n = s.size if isinstance(s.size, int) else lnk.NS
            covered = {}
            nb = {R32: 4, RPC32: 4, R16: 2, RPC16: 2}
            for off, tg, ty in s.rels:
                for j in range(nb[ty]):
                    covered[off + j] = (off, tg, ty)
            for k in range(n):
                if k in covered:
                    continue
                b = o.byte(pos.plus(K(k)))
                e = s.data.get(k)
                okb = (isc(b) and b == e) if e is not None else symname(b) == "c:%s:%d:%d" % (on, si, k)
                if not self.ob(okb, "byte:%s+%d" % (tag, k), lambda: "byte %d of %s is written as %s" % (k, tag, b), wh):
                    break
            if n and isinstance(s.size, int) is False:
                # the rest of the section follows immediately
                q = pos.plus(K(n))
                r = [e for e in o.ev if e[2] == "rest" and eq(st, e[0], q, 1 << 32)]
                self.ob(len(r) == 1 and eq(st, r[0][1], sz.plus(K(-n)), 1 << 32), "rest:" + tag, "the contents of %s are not copied in full" % tag, wh)
            for off, tg, ty in s.rels:
                w = nb[ty]
                mm = 1 << (8 * w)
                v = modval(o.num(pos.plus(K(off)), w), mm)
                add = K(0)
                for j in range(w):
                    e = s.data.get(off + j)
                    add = add.plus(K(e) if e is not None else L({rel.atom("u", T.sym("c:%s:%d:%d" % (on, si, off + j), 8)): 1}, 0), 1 << (8 * j))
                # contents are unsigned bytes
                if not v.integral():
                    self.bad("reloc:%s+%d" % (tag, off), "relocated value %s is not an integer form" % v, wh)
                    continue
                x_ = v.minus(add)
                if ty in (RPC32, RPC16):
                    x_ = x_.plus(a).plus(K(off))
                x_ = rel.signed(rel.reduce_mod(x_, mm), mm)
                sk = self.target(x, tg)
                if any(at.kind != "rem" and not isc(at.x) and str(at.x).startswith("c:") for at in x_.d):
                    self.ob(False, "addend:%s:%s" % (tag, tg), lambda: "relocation at %s+%d to %s yields %s: the addend is not preserved" % (tag, off, tg, v), wh)
                    continue
                if sk is None:   # absolute
                    self.ob(x_.isconst() and x_.c == 0, "abs:%s+%d" % (tag, off), lambda: "absolute relocation at %s+%d adds %s" % (tag, off, x_), wh)
                    continue
                if sk in self.S:
                    self.ob(eq(st, x_, self.S[sk][0], min(mm, self.S[sk][1])), "ref:%s:%s" % (tag, tg if isinstance(tg, str) else "section%d" % tg[1]),
                            lambda: "relocation type %d at %s+%d resolves %s to %s, elsewhere to %s" % (ty, tag, off, tg, x_, self.S[sk][0]), wh)
                    self.n += 0
                else:
                    self.S[sk] = (x_, mm, wh)
                    self.n += 1

    def target(self, x, tg):
        if tg == 0:
            return None
        if isinstance(tg, tuple):
            return ("sect", x.name, tg[1])
        for s in x.syms:
            if s[0] == tg and s[3] == LOCAL:
                return ("local", x.name, tg)
        return ("glob", tg)

    def sym(self, k):
        r = self.S.get(k)
        if r is None:
            return None
        return r[0]

    # ---- addresses
    def layout(self):
        c, o, st, im = self.c, self.o, self.st, self.im
        secs = []
        for x in c.objs:
            for i, s in enumerate(x.sects):
                if not s.flags & A_:
                    continue
                k = ("sect", x.name, i)
                tag = x.name + s.name
                sa = self.sym(k)
                if sa is None:
                    self.bad("noref:" + tag, "no reference to section %s was analysed" % tag)
                    continue
                mm = self.S[k][1]
                wh = self.S[k][2]
                if (x.name, i) in self.A:
                    a = self.A[(x.name, i)]
                    self.ob(eq(st, sa, a, mm), "addr:" + tag, lambda: "%s is referred to at address %s but the loader puts it at %s" % (tag, sa, a), wh)
                    e = a
                else:
                    e = rel.rem(st, sa, mm)
                al = s.align
                if c.fmt in F16 and s.flags & X_:
                    al = min(al, 4)
                if c.fmt == "-huge" and s.name in (".relot", ".relod"):
                    al = 4
                if al > 1:
                    r = rel.rem(st, e, al)
                    self.ob(r.isconst() and r.c == 0, "align:" + tag, lambda: "%s at address %s is not aligned to %d" % (tag, e, al), wh)
                secs.append((s, tag, e, self.size(s), x, i, wh))
        # globals and locals
        for x in c.objs:
            for s in x.syms:
                if s[1] is None or s[1] >= 0xff00:
                    continue
                k = ("local", x.name, s[0]) if s[3] == LOCAL else ("glob", s[0])
                sa = self.sym(k)
                base = self.sym(("sect", x.name, s[1]))
                if sa is None or base is None:
                    continue
                v = K(s[2]) if isinstance(s[2], int) else rel.lin(st, T.sym(s[2][0], 32), 32)
                self.ob(eq(st, sa, base.plus(v), self.S[k][1]), "symbol:" + s[0], lambda: "symbol %s resolves to %s instead of %s" % (s[0], sa, base.plus(v)), self.S[k][2])
        # spaces, overlap, limits
        relod = None
        if c.fmt == "-unreal" and ("glob", "__start__relod") in self.S:
            b, e = self.sym(("glob", "__start__relod")), self.sym(("glob", "__stop__relod"))
            relod = (Sect(".relod", 0, A_), ".relod", b, e.minus(b), None, None, self.S[("glob", "__start__relod")][2])
            self.relod(relod)
        allsec = secs + ([relod] if relod else [])
        self.allsec = allsec
        small = c.fmt == "-small"
        for p in range(len(allsec)):
            for q in range(p + 1, len(allsec)):
                A, B = allsec[p], allsec[q]
                if small and bool(A[0].flags & X_) != bool(B[0].flags & X_):
                    continue
                zero = (A[3].isconst() and A[3].c == 0) or (B[3].isconst() and B[3].c == 0)
                if zero:
                    continue
                d1 = rel.rng(st, B[2].minus(A[2]).minus(A[3]))[0]
                d2 = rel.rng(st, A[2].minus(B[2]).minus(B[3]))[0]
                self.ob(d1 >= 0 or d2 >= 0, "overlap:%s:%s" % (A[1], B[1]),
                        lambda: "%s [%s, +%s) and %s [%s, +%s) may overlap" % (A[1], A[2], A[3], B[1], B[2], B[3]), B[6])
        for s, tag, e, sz, x, i, wh in secs:
            if s.typ == NOBITS:
                self.nobits(s, tag, e, sz, wh)
        # start/stop symbols
        groups = {}
        for t in allsec:
            groups.setdefault("_" + t[0].name.replace(".", "_").lstrip("_"), []).append(t)
        groups["allcode__"] = [t for t in allsec if t[0].flags & X_]
        groups["alldata__"] = [t for t in allsec if not t[0].flags & X_]
        for g, ts in groups.items():
            for which in ("start", "stop"):
                k = ("glob", "__%s_%s" % (which, g))
                sa = self.sym(k)
                if sa is None or any(q[0] == k[1] and q[1] is not None for x in c.objs for q in x.syms):
                    continue
                wh = self.S[k][2]
                mm = self.S[k][1]
                ends = [(t[2] if which == "start" else t[2].plus(t[3])) for t in ts]
                e = None
                for z in ends:
                    if eq(st, z, sa, mm):
                        e = z
                if not self.ob(e is not None, "bound:" + k[1], lambda: "%s is %s, which is not the %s of any of its sections (%s)" % (k[1], sa, which, ", ".join(str(z) for z in ends)), wh):
                    continue
                for t, z in zip(ts, ends):
                    if t[3].isconst() and t[3].c == 0:
                        continue
                    lo, hi = rel.rng(st, z.minus(e) if which == "start" else e.minus(z))
                    self.ob(lo >= 0, "bound:" + k[1], lambda: "%s (%s) does not bound its sections: %s" % (k[1], e, z), wh)
        sk = ("glob", "__start_stack__")
        if sk in self.S and not any(q[0] == sk[1] and q[1] is not None for x in c.objs for q in x.syms):
            stk = rel.lin(st, T.sym("stk", 32), 32) if c.sym.get("stk") else K(8192)
            self.ob(eq(st, self.sym(sk), K(0xFFFC).minus(stk), 1 << 16), "stack", lambda: "__start_stack__ is %s" % self.sym(sk), self.S[sk][2])
            hi = [t for t in allsec if not small or not t[0].flags & X_]
            for t in hi:
                self.ge(K(0xFFFC).minus(stk), t[2].plus(t[3]), "stackroom:" + t[1], "the stack area and the end of %s" % t[1], t[6])
        # the offset 0 of the data segment stays unused
        if small:
            for t in allsec:
                if not t[0].flags & X_:
                    self.ge(t[2], K(1), "null:" + t[1], "%s must not be at offset 0" % t[1], t[6])

    def nobits(self, s, tag, e, sz, wh):
        c, o, st, im = self.c, self.o, self.st, self.im
        if sz.isconst() and sz.c == 0:
            return
        if c.bss:
            # beyond the file's data, inside the memory of a writable segment
            if c.fmt in ("-elf", "-pe", "-mach", "-aout"):
                for g in im.segs:
                    if "w" not in g.kind:
                        continue
                    if rel.rng(st, e.minus(g.addr.plus(g.fsz)))[0] >= 0 and rel.rng(st, g.addr.plus(g.msz).minus(e).minus(sz))[0] >= 0:
                        self.n += 1
                        return
                self.bad("bss:" + tag, "%s [%s, +%s) is not in the zero-filled part of a writable segment: %s" % (tag, e, sz, ["%s+%s..%s" % (g.addr, g.fsz, g.msz) for g in im.segs]), wh)
                return
            if c.fmt == "-small":
                end = o.end.minus(im.spaces["data"])
            elif c.fmt in ("-huge", "-unreal"):
                end = o.end
            else:
                end = im.segs[0].addr.plus(o.end)
            self.ge(e, end, "bss:" + tag, "uninitialised section %s must follow the file's contents" % tag, wh)
            return
        # must be zeroes in the file
        if c.fmt == "-small":
            p = e.plus(im.spaces["data"])
        elif c.fmt in ("-huge", "-unreal"):
            p = e
        else:
            p = None
            for g in im.segs:
                if rel.rng(st, e.minus(g.addr))[0] >= 0 and rel.rng(st, g.addr.plus(g.fsz).minus(e).minus(sz))[0] >= 0:
                    p = e.minus(g.addr).plus(g.fpos)
                    if c.fmt not in ("-tiny", "-flat16", "-flat32"):
                        self.ob("w" in g.kind, "perm:" + tag, "%s lies in read-only segment %s" % (tag, g.name), wh)
            if p is None:
                self.bad("bss:" + tag, "%s [%s, +%s) is not backed by the file" % (tag, e, sz), wh)
                return
        end = p.plus(sz)
        while True:
            if rel.rng(st, p.minus(end))[0] >= 0:
                self.n += 1
                return
            ev = None
            for x in o.ev:
                if rel.rng(st, p.minus(x[0]))[0] >= 0 and rel.rng(st, x[0].plus(x[1]).minus(p))[0] > 0:
                    ev = x
            if ev is None or ev[2] == "rest" or (ev[2] == "fill" and ev[3] != 0) or (ev[2] == "bytes" and any(b != 0 for b in ev[3])):
                self.bad("bss:" + tag, "%s is not filled with zeroes at file position %s" % (tag, p), ev[4] if ev else wh)
                return
            p = ev[0].plus(ev[1])

    def relod(self, t):
        """the table of 32-bit relocations for unreal mode: every absolute 32-bit field once"""
        c, o, st = self.c, self.o, self.st
        exp = []
        for x in c.objs:
            for i, s in enumerate(x.sects):
                for off, tg, ty in s.rels:
                    if ty == R32 and tg != 0:
                        exp.append((self.A[(x.name, i)].plus(K(off)), "%s%s+%d" % (x.name, s.name, off)))
        n = 4 * len(exp)
        self.ob(t[3].isconst() and t[3].c == n, "relod", lambda: ".relod has %s bytes for %d absolute relocations" % (t[3], len(exp)), t[6])
        if not (t[3].isconst() and t[3].c == n):
            return
        got = [o.num(t[2].plus(K(4 * k)), 4) for k in range(len(exp))]
        gs = {g.key() for g in got}
        for a, nm in exp:
            self.ob(rel.rem(st, a, 1 << 32).key() in gs, "relod:" + nm, lambda: "no .relod record for the relocated field at %s" % nm, o.where(t[2]))
        self.ob(len(gs) == len(exp), "relod", ".relod repeats records", o.where(t[2]))

    def entry(self):
        c, o, st, im = self.c, self.o, self.st, self.im
        k = ("glob", c.entry)
        sa = self.sym(k)
        if sa is None:
            self.bad("noentry", "no reference to the entry symbol was analysed")
            return
        wh = o.where(im.entryfield)
        if c.fmt in ("-huge", "-unreal"):
            e = im.entry_phys.plus(K(im.hdr))
            self.ob(eq(st, e, sa, 1 << 20), "entry", lambda: "CS:IP is physical %s from the header, the entry symbol is at %s" % (e, sa), wh)
            ip = o.num(20, 2)
            self.ob(rel.rng(st, ip)[1] < 16, "entryip", lambda: "entry IP %s is not normalised" % ip, wh)
            return
        self.ob(eq(st, im.entry, sa, im.mod), "entry", lambda: "execution starts at %s, the entry symbol is at %s" % (im.entry, sa), wh)

    def dos(self):
        c, o, st, im = self.c, self.o, self.st, self.im
        wh = o.where(4)
        # image size from the header equals the file size, for every residue modulo 512
        end = o.end
        syms = [a for a in end.d if a.kind != "rem"]
        x = syms[0] if syms else None
        q = rel.divq(st, end.plus(K(511)), 512)
        self.ob(eqx(st, im.pages, q, end), "pages", lambda: "PageCnt is %s for a file of %s bytes" % (im.pages, end), wh)
        r = rel.rem(st, end, 512)
        self.ob(eqx(st, im.part, r, end), "partpage", lambda: "PartPage is %s for a file of %s bytes" % (im.part, end), wh)
        # memory: paragraphs reserved after the image cover data, bss and stack
        para = lambda l: l.minus(rel.rem(st, l, 16))
        top = para(end.plus(K(15 - im.hdr))).plus(im.min.scale(16))
        ssb = rel.rem(st, im.ss.scale(16), 1 << 20)
        if c.fmt == "-small":
            self.ob(im.sp.isconst() and 0xFFF0 <= im.sp.c <= 0xFFFE, "sp", lambda: "initial SP is %s" % im.sp, wh)
            need = ssb.plus(K(0x10000))
        else:
            stk = rel.lin(st, T.sym("stk", 32), 32) if c.sym.get("stk") else K(32768)
            self.ob(eq(st, im.sp, stk, 1 << 16), "sp", lambda: "initial SP is %s, stack size is %s" % (im.sp, stk), wh)
            need = ssb.plus(im.sp)
            for t in self.allsec:
                self.ge(ssb.plus(K(im.hdr)), t[2].plus(t[3]), "ss:" + t[1], "the stack segment base and the end of %s" % t[1], wh)
        lo = rel.rng(st, top.minus(need))[0]
        self.ob(lo >= 0, "minalloc", lambda: "memory reserved up to %s (image plus MinAlloc) does not cover the stack segment up to %s (short by up to %s)" % (top, need, -lo), wh)
        d = im.max.minus(im.min)
        self.ob(rel.rng(st, d)[0] >= 0, "maxalloc", lambda: "MaxAlloc %s below MinAlloc %s" % (im.max, im.min), wh)


def eqx(st, a, b, end):
    """equality of two forms; a[rem] forms are compared modulo the field width"""
    if a == b:
        return True
    d = a.minus(b)
    if d.isconst():
        return d.c == 0
    a2 = modval(a, 1 << 16)
    d = a2.minus(b)
    return d.isconst() and d.c == 0


def one(job):
    variant, args = job
    M = _M[variant]
    case = build_case(*args)
    key = case.name + (":nolocal" if variant else "")
    if variant:
        for o in case.objs:
            for s in o.sects:
                s.rels = [r for r in s.rels if r[1] != "loc"]
    try:
        I, fin = lnk.run(M, case.args(), case.objs, sym=case.sym)
    except AnalysisError as e:
        if isfault(e):
            return key, [(key + "|memory", "main", "memory error while linking: %s" % e)], 1, 0, 0, set()
        raise
    viol, n, oks = [], 0, 0
    for st in fin:
        if lnk.ok(st):
            oks += 1
            v, k = Checker(case, st, key).run()
            viol += v
            n += k
        else:
            lo = "; ".join("%s:%d %s=%s" % (f, l, c if len(str(c)) < 100 else "...", v) for f, l, c, v in st.trace[-2:])
            viol.append((key + "|rejected", lnk.where(st), "a valid link is rejected with '%s' (%s)" % (lnk.message(st), lo)))
            n += 1
    return key, viol, n, oks, len(fin), I.covered


_M = {}


def models():
    _M[0] = build.load("smlrl")
    _M[1] = build.load("smlrl", LOCALREL)


REFS = ("addr", "symbol", "byte", "rest", "reloc", "twice", "missing", "bound", "stack", "noref", "relod", "uncovered", "differs", "rejected")
START = ("entry", "noentry", "entryip", "sp", "pages", "partpage", "minalloc", "maxalloc", "ss", "stackroom", "null")


def group(key):
    """which property a violation belongs to"""
    k = key.split("|", 1)[1].split(":", 1)[0]
    return "refs" if k in REFS else "start" if k in START else "image"


def layout(R, which):
    R.files = ("smlrl.c",)
    models()
    cases = layout_cases(R.thorough)
    jobs = [(0, c) for c in cases] + [(1, c) for c in cases if R.thorough or c[1] in ("full", "databss")]
    res = par.pmap(one, jobs, 1)
    for key, viol, n, oks, nf, cov in res:
        R.count("links analysed")
        R.count("obligations", n)
        R.count("output images", oks)
        R.count("paths", nf)
        m = 0
        for k, w, msg in viol:
            if k.endswith("|memory") or group(k) == which:
                R.violation(k, w, msg)
                m += 1
                if m == 6:
                    break
        R.sample("%s: %d outcomes, %d obligations" % (key, nf, n))
    R.need("links analysed", 100)
    R.need("output images", 100)
    R.rule("Abstract interpretation of the linker from main() on object files whose section sizes, symbol values, origin, stack size and contents are "
           "symbolic; the written file (a tiling of write events at linear positions) is re-read by an independent loader model of each format and compared, "
           "for all values, in a domain of exact linear forms with remainders and intervals.")


def refs(R):
    layout(R, "refs")


def image_(R):
    layout(R, "image")


def start(R):
    layout(R, "start")


# ---- relocation kinds, record order and buffer boundaries
def chunk_objs(fmt, size, shift):
    """one code section of a concrete size with relocations around every multiple of 1024"""
    w = 4 if big(fmt) else 2
    ty = ((R32, RPC32) if big(fmt) else (R16, RPC16)) if w == 4 or not big(fmt) else ()
    offs = [0] if size > w + shift else []
    for k in range(1, 4):
        o = 1024 * k - 2 * w + shift
        while o < 1024 * k + 2 * w:
            offs.append(o)
            o += w
    if size - w - (shift % 3) > (offs[-1] + w if offs else 0):
        offs.append(size - w - (shift % 3))
    offs = [o for o in offs if 0 <= o and o + w <= size]
    offs = [o for i, o in enumerate(offs) if i == 0 or o >= offs[i - 1] + w]
    tg = [("sect", 0), "gd", ("sect", 1), "__start", "loc"]
    rels = [(o, tg[i % 5], ty[(i + shift) % 2]) for i, o in enumerate(offs)]
    if shift % 2:
        rels.reverse()
    d = 64
    rd = [(4, ("sect", 0), ty[0]), (12, ("sect", 1), ty[0]), (20, "gd", ty[0]), (28, "__start", ty[0]), (36, "loc", ty[0])]
    return [Obj("a.o", [Sect(".text", size, A_ | X_, 4, PROGBITS, rels), Sect(".data", d, A_ | W_, 4, PROGBITS, rd)],
                [("loc", 1, 8, LOCAL), ("__start", 0, 0 if size < 8 else 1, GLOBAL), ("gd", 1, 12, GLOBAL)])]


def kinds_objs(fmt, tg):
    a = R32 if big(fmt) else R16
    rd = [(8, ("sect", 0), a), (16, ("sect", 1), a), (24, "gd", a), (32, "__start", a), (40, "loc", a)]
    return [Obj("a.o", [Sect(".text", 48, A_ | X_, 4, PROGBITS, [(8, tg, "ty")]), Sect(".data", 64, A_ | W_, 4, PROGBITS, rd)],
                [("loc", 1, 8, LOCAL), ("__start", 0, 1, GLOBAL), ("gd", 1, 12, GLOBAL)])]


def symkind_objs(fmt, info, glob):
    a = R32 if big(fmt) else R16
    rd = [(8, ("sect", 0), a), (16, ("sect", 1), a), (32, "__start", a)]
    syms = [("xx", 1, 20, GLOBAL if glob else LOCAL, 0, info), ("__start", 0, 1, GLOBAL)]
    return [Obj("a.o", [Sect(".text", 48, A_ | X_, 4, PROGBITS, [(8, "xx", a)]), Sect(".data", 64, A_ | W_, 4, PROGBITS, rd)], syms)]


def holds(st, sym, v):
    """may the 8-bit symbol have value v on this path?"""
    x = T.sym(sym, 8)
    for c, b in st.facts.items():
        r = T.subst(c, {x: v})
        if isc(r) and r != b:
            return False
    return True


def rel_one(job):
    import copy
    kind, variant, args = job
    M = _M[variant]
    fmt = args[0]
    sfx = ":nolocal" if variant else ""
    if kind == "chunk":
        objs = chunk_objs(*args)
        key = "%s:chunk:%d:%d%s" % (fmt, args[1], args[2], sfx)
    elif kind == "kind":
        objs = kinds_objs(*args)
        key = "%s:type:%s%s" % (fmt, args[1] if not isinstance(args[1], tuple) else "section%d" % args[1][1], sfx)
    else:
        objs = symkind_objs(*args)
        key = "%s:symbol:%d:%s%s" % (fmt, args[1], "global" if args[2] else "local", sfx)
    if variant:
        for o in objs:
            for s in o.sects:
                s.rels = [r for r in s.rels if r[1] != "loc"]
    case = Case(key, fmt, objs)
    try:
        I, fin = lnk.run(M, case.args(), objs)
    except AnalysisError as e:
        if isfault(e):
            return key, [(key + "|memory", "main", "memory error while linking: %s" % e)], 1, 1
        raise
    v, n = [], 0
    if kind == "kind":
        known = {R32: 0, RPC32: 0, R16: 0, RPC16: 0}
        for ty in range(256):
            hit = [st for st in fin if holds(st, "ty", ty)]
            n += 1
            if not hit:
                raise AnalysisError("no path for relocation type %d" % ty)
            for st in hit:
                if ty not in known:
                    if not lnk.failed(st):
                        v.append((key + "|accept:%d" % ty, lnk.where(st), "relocation type %d is not supported but the link succeeds" % ty))
                elif not lnk.ok(st):
                    v.append((key + "|reject:%d" % ty, lnk.where(st), "relocation type %d is rejected: %s" % (ty, lnk.message(st))))
                else:
                    c2 = copy.copy(case)
                    c2.objs = kinds_objs(*args)
                    for s in c2.objs[0].sects:
                        s.rels = [(o, t, ty if x == "ty" else x) for o, t, x in s.rels if not (variant and t == "loc")]
                    known[ty] += 1
                    ck = Checker(c2, st, key + ":%d" % ty)
                    ck.o = o = image.Out(st, "out.bin")
                    a, k = ck.run()
                    v += a
                    n += k
        for ty, k in known.items():
            n += 1
            if not k and not any(x[0].startswith(key + "|reject:%d" % ty) for x in v):
                v.append((key + "|reject:%d" % ty, "Relocate", "relocation type %d is never applied" % ty))
    elif kind == "sym":
        info, glob = args[1], args[2]
        b, t = info >> 4, info & 15
        for st in fin:
            n += 1
            good = b == 1 or t == 3 or b == 0 and not variant
            if lnk.ok(st) and not good:
                v.append((key + "|accept", lnk.where(st), "a relocation against a symbol of binding %d type %d is accepted" % (b, t)))
            elif lnk.ok(st):
                if t == 3:   # section symbols stand for the start of their section
                    objs[0].sects[0].rels = [(8, ("sect", 1), objs[0].sects[0].rels[0][2])]
                elif b == 0:
                    objs[0].syms[0] = objs[0].syms[0][:3] + (LOCAL,)
                else:
                    objs[0].syms[0] = objs[0].syms[0][:3] + (GLOBAL,)
                a, k = Checker(case, st, key).run()
                v += a
                n += k
            elif not lnk.failed(st):
                v.append((key + "|status", lnk.where(st), "the linker neither succeeds nor fails"))
            elif good:
                v.append((key + "|reject", lnk.where(st), "a relocation against a symbol of binding %d type %d is rejected: %s" % (b, t, lnk.message(st))))
    else:
        for st in fin:
            if lnk.ok(st):
                a, k = Checker(case, st, key).run()
                v += a
                n += k
            else:
                v.append((key + "|rejected", lnk.where(st), "a valid link is rejected: %s" % lnk.message(st)))
    return key, v, n, len(fin)


def relocs(R):
    R.files = ("smlrl.c",)
    models()
    jobs = []
    sizes = [5, 6, 7, 8, 9, 1023, 1024, 1025, 1026, 1027, 1028, 1029, 1030, 1031, 2047, 2048, 2051, 2052, 2053, 3075, 3076]
    if R.thorough:
        sizes = list(range(5, 40)) + list(range(1010, 1050)) + list(range(2034, 2070)) + list(range(3060, 3095)) + [4099, 5000]
    for fmt in ("-flat32", "-flat16"):
        for i, z in enumerate(sizes):
            for sh in range(4) if R.thorough else (i % 4, (i + 2 + i // 4) % 4):
                jobs.append(("chunk", 0, (fmt, z, sh)))
                if R.thorough:
                    jobs.append(("chunk", 1, (fmt, z, sh)))
    for fmt in ("-flat32", "-flat16", "-elf", "-huge") if R.thorough else ("-flat32", "-flat16"):
        for vr in (0, 1):
            for tg in (("sect", 0), ("sect", 1), "gd", "loc", 0):
                if not (vr and tg == "loc"):
                    jobs.append(("kind", vr, (fmt, tg)))
            for b in range(16) if R.thorough else (0, 1, 2, 3, 10, 15):
                for t in range(16) if R.thorough else (0, 1, 2, 3, 4):
                    if not (vr and b == 0 and t != 3):
                        jobs.append(("sym", vr, (fmt, b << 4 | t, b != 0)))
    for key, v, n, nf in par.pmap(rel_one, jobs, 4):
        R.count("links analysed")
        R.count("obligations", n)
        R.count("paths", nf)
        R.count("%s cases" % key.split(":")[1])
        for x in v[:4]:
            R.violation(*x)
    R.need("chunk cases", 80)
    R.need("type cases", 16)
    R.need("symbol cases", 80)
    R.rule("Abstract interpretation of the linker on object files with relocations at every alignment around the copy buffer's boundaries (contents symbolic), "
           "with a symbolic relocation type (all 256 values) and with every symbol binding/type: each relocated field must be S+A or S+A-P once, every other byte "
           "must be copied unchanged, unsupported kinds must end in an error.")
