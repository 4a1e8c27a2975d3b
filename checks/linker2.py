"""L05..: symbol resolution, refused inputs, limits, failing I/O, further formats, maps."""
import itertools
import terms as T, rel, lnk, image, par, stdio
from terms import isc
from rel import L
from image import K, Bad
from lnk import Sect, TEXT, RODATA, DATA, BSS, Obj, Archive, R32, R16, RPC32, RPC16, LOCAL, GLOBAL, NOBITS, PROGBITS, A_, W_, X_
from linker import Case, Checker, big, models, _M, FORMATS, startstop
from sai import AnalysisError, isfault


def hash_(k):
    return sum(k.encode())


# ---- symbol resolution
def gobj(name, fmt, defs, imps, entry=False, dup=None):
    """an object defining and importing the named globals"""
    a = R32 if big(fmt) else R16
    syms = []
    if entry:
        syms.append(("__start", 0, 3, GLOBAL))
    for k, d in enumerate(defs):
        syms.append((d, k & 1, 5 + 2 * k, GLOBAL))
    for i in imps:
        syms.append((i, None, 0, GLOBAL))
    tg = [("sect", 0), ("sect", 1)] + [s[0] for s in syms]
    rels = [(4 + 4 * k, t, a) for k, t in enumerate(tg)]
    return Obj(name, [TEXT(6 + 4 * len(rels), rels, align=4), DATA(8)], syms)


def expect(metas, entry, special):
    """classical resolution: -> ("ok", needed indexes) or ("error", kind)"""
    defs = [{s[0] for s in o.syms if s[3] == GLOBAL and s[1] is not None} for o in metas]
    imps = [[s[0] for s in o.syms if s[3] == GLOBAL and s[1] is None] for o in metas]
    needed, work = set(), [entry]
    seen = set()
    while work:
        s = work.pop()
        if s in seen:
            continue
        seen.add(s)
        for i, d in enumerate(defs):
            if s in d:
                if i not in needed:
                    needed.add(i)
                    work += imps[i]
                break
        else:
            if s not in special:
                return "error", "undefined"
    for i in needed:
        for j in needed:
            if i < j and defs[i] & defs[j]:
                return "error", "duplicate"
    return "ok", sorted(needed)


def graph_jobs(thorough):
    mi = [(), ("f",), ("f", "g")]
    D = [("f",), ("g",), ("h",), ("f", "g")]
    Im = [(), ("f",), ("g",), ("h",)]
    out = []
    n = 0
    for m in mi:
        for d in itertools.product(D, repeat=3):
            for i in itertools.product(Im, repeat=3):
                n += 1
                if thorough:
                    out += [(m, d, i, a) for a in ((n % 5), (n + 2) % 5)]
                elif n % 11 == 5:
                    out.append((m, d, i, (n // 11) % 5))
    return out


ARR = ("main then archive", "archive then main", "two archives", "all objects", "main last, archive and object")


def graph_one(job):
    m, d, i, arr = job
    fmt = "-elf" if arr != 3 else "-flat16"
    main = gobj("main.o", fmt, (), m, True)
    mem = []
    for k in range(3):
        own = set(d[k])
        mem.append(gobj("m%d.o" % k, fmt, d[k], [x for x in i[k] if x not in own]))
    if arr == 0:
        files = [main, Archive("lib.a", mem)]
    elif arr == 1:
        files = [Archive("lib.a", mem, extra=False), main]
    elif arr == 2:
        files = [main, Archive("l1.a", mem[:1]), Archive("l2.a", mem[1:], extra=False)]
    elif arr == 3:
        files = [mem[0], main, mem[1], mem[2]]
    else:
        files = [Archive("l1.a", mem[:2]), mem[2], main]
    metas = []
    for f in files:
        metas += f.objs if isinstance(f, Archive) else [f]
    key = "graph:%s:%s:%s:%d" % ("+".join(m) or "-", ",".join("+".join(x) for x in d), ",".join("+".join(x) or "-" for x in i), arr)
    return judge(key, fmt, files, metas, "__start", ())


def judge(key, fmt, files, metas, entry, special, want=None, refs=(), opts=()):
    if want is None:
        want = expect(metas, entry, special)
    needed = [metas[k] for k in want[1]] if want[0] == "ok" else metas
    case = Case(key, fmt, needed, opts=list(opts), loaded=files, entry=entry)
    try:
        I, fin = lnk.run(_M[hash_(key) & 1], case.args(), files)
    except AnalysisError as e:
        if isfault(e):
            return key, [(key + "|memory", "main", "memory error while linking: %s" % e)], 1
        raise
    v, n = [], 0
    for st in fin:
        n += 1
        if want[0] == "error":
            if not lnk.failed(st):
                v.append((key + "|accepted", "main", "the link succeeds although it has the error: %s" % want[1]))
        elif lnk.ok(st):
            a, k = Checker(case, st, key).run()
            v += a
            n += k
        else:
            v.append((key + "|rejected", lnk.where(st), "a valid link is rejected: %s" % lnk.message(st)))
    return key, v, n


def special_jobs(thorough):
    out = []
    names = ["__start__text", "__stop__text", "__start__data", "__stop__data", "__start__rodata", "__start__bss", "__stop__bss",
             "__start_allcode__", "__stop_allcode__", "__start_alldata__", "__stop_alldata__", "__start_stack__", "__stop__tex",
             "__start_", "__stop_", "__start__", "__start_text", "__stop__textx", "__starting", "__start_.text", "__sto__text", "__start__my_x", "__stop__my_x", "__start__te_t", "__stop_xtext"]
    for fmt in ("-tiny", "-elf", "-small", "-flat32", "-aout", "-huge") if thorough else ("-tiny", "-elf", "-small"):
        for nm in names:
            for kind in ("data", "code", "user"):
                out.append((fmt, nm, kind))
    return out


def special_one(job):
    fmt, nm, kind = job
    a = R32 if big(fmt) else R16
    sects = [TEXT(64, [(8, nm, a), (16, ("sect", 0), a), (24, "__start", a)], align=4)]
    syms = [("__start", 0, 3, GLOBAL), (nm, None, 0, GLOBAL)]
    if kind != "code":
        sects += [RODATA(12), DATA(8), BSS(16), DATA(20, name=".my.x"), DATA(12, name="_my.x")]
        sects[0].rels += [(28 + 4 * k, ("sect", k + 1), a) for k in range(5)]
    metas = [Obj("a.o", sects, syms)]
    # a section of an object that is not linked does not count
    metas.append(Obj("z.o", [TEXT(12, align=4), DATA(8, name=".zz")], [("zz", 0, 0, GLOBAL)]))
    if kind == "user":
        metas.append(gobj("u.o", fmt, (nm,), ()))
    key = "special:%s:%s:%s" % (fmt, nm, kind)
    valid = kind == "user"
    if not valid:
        secn = [s.name for s in sects]
        for pre in ("__start_", "__stop_"):
            if nm.startswith(pre) and len(nm) > len(pre):
                x = nm[len(pre):]
                if x == "allcode__" or (x == "alldata__" and kind != "code") or (x == "stack__" and fmt in ("-tiny", "-small")):
                    valid = True
                for s in secn:
                    if len(s) == len(x) and all(p == q or (p == "_" and q == ".") for p, q in zip(x, s)):
                        valid = True
    want = ("ok", [0, 2] if kind == "user" else [0]) if valid else ("error", "undefined symbol %s" % nm)
    if valid and kind != "user" and "_my_x" in nm:
        want = ("ok", [0])
        # several sections match: any of them is a legitimate choice, only resolution is required
        return judge_ok(key, fmt, metas)
    return judge(key, fmt, metas, metas, "__start", (), want)


def judge_ok(key, fmt, metas):
    case = Case(key, fmt, metas)
    I, fin = lnk.run(_M[0], case.args(), metas)
    v = []
    for st in fin:
        if not lnk.ok(st):
            v.append((key + "|rejected", lnk.where(st), "a valid link is rejected: %s" % lnk.message(st)))
    return key, v, len(fin)


def entry_jobs(thorough):
    return [(f, e, w) for f in (FORMATS if thorough else ("-elf", "-small", "-pe")) for e in ("__start", "f", "g", "nosuch", "loc", "und") for w in (0, 1)]


def entry_one(job):
    fmt, e, w = job
    o1 = gobj("a.o", fmt, ("f",), (), True)
    o1.syms.append(("loc", 0, 7, LOCAL))
    o2 = gobj("b.o", fmt, ("g",), ("f",))
    o3 = gobj("c.o", fmt, ("k",), ("und",))
    files = [o1, o2, o3] if w else [Archive("lib.a", [o3, o2, o1])]
    metas = [o1, o2, o3] if w else [o3, o2, o1]
    return judge("entry:%s:%s:%d" % job, fmt, files, metas, e, (), opts=["-norel"] if fmt == "-pe" else [])


def dispatch(j):
    return {"g": graph_one, "s": special_one, "e": entry_one}[j[0]](j[1])


def symbols(R):
    R.files = ("smlrl.c",)
    models()
    jobs = [("g", j) for j in graph_jobs(R.thorough)] + [("s", j) for j in special_jobs(R.thorough)] + [("e", j) for j in entry_jobs(R.thorough)]
    for key, v, n in par.pmap(dispatch, jobs, 8):
        R.count("links analysed")
        R.count("obligations", n)
        R.count("%s links" % key.split(":")[0])
        for x in v[:3]:
            R.violation(*x)
    R.need("graph links", 400)
    R.need("special links", 150)
    R.need("entry links", 30)
    R.rule("Abstract interpretation of the linker from main() on every small reference graph of the listed scope (contents symbolic): an object or archive member is in the image "
           "exactly when the entry point reaches it through references resolved to the first definition in command-line order; undefined references and duplicate definitions "
           "among the included objects end in an error; references land on the chosen definition.")


# ---- refused inputs
class Patched:
    """an object file with some fields replaced: patches (offset, bytes, value or symbol name) or a size"""

    def __init__(self, obj, patches=(), size=None, find=None):
        self.obj, self.patches, self.cut, self.find = obj, list(patches), size, find
        self.name, self.sects, self.syms = obj.name, getattr(obj, "sects", None), getattr(obj, "syms", None)

    def image(self, base=0):
        size, ents, iv = self.obj.image() if base == 0 else self.obj.image(base)
        pt = list(self.patches)
        if self.find:
            pt += self.find(self.obj, size, [(o - base, n, v) for o, n, v in ents])
        for off, n, v in pt:
            ents = [e for e in ents if e[0] + e[1] <= base + off or e[0] >= base + off + n]
            ents.append((base + off, n, T.sym(v, 8 * n) if isinstance(v, str) else v))
        if self.cut is not None:
            size = self.cut(size) if callable(self.cut) else self.cut
            ents = [e for e in ents if e[0] + e[1] <= size]
        self.contents = getattr(self.obj, "contents", [])
        return size, ents, iv

    def default(self):
        return self.obj.default()


def word(ents, off, n):
    v = 0
    d = {}
    for o, k, x in ents:
        for j in range(k):
            d[o + j] = (x >> 8 * j) & 255 if isc(x) else 0
    for j in range(n):
        v |= d.get(off + j, 0) << 8 * j
    return v


def shdr(ents, idx):
    """file offset of section header idx"""
    return word(ents, 32, 4) + 40 * idx


def sh_by_type(ents, typ, skip=0):
    n = word(ents, 48, 2)
    for i in range(n):
        if word(ents, shdr(ents, i) + 4, 4) == typ:
            if skip == 0:
                return i
            skip -= 1
    raise AnalysisError("no section of type %d" % typ)


def values(fin, sym, bits, good):
    """representatives of every class of values the paths distinguish"""
    if bits == 8:
        return range(256)
    cs = set(good) | {0, 1, 2, 3, (1 << bits) - 1, 1 << (bits - 1)}

    def consts(t):
        if isc(t):
            cs.update(((t + d) & ((1 << bits) - 1)) for d in (-1, 0, 1))
        elif isinstance(t, T.Term):
            for x in t.args:
                consts(x)
        elif isinstance(t, tuple):
            for x in t:
                consts(x)
    for st in fin:
        for c in st.facts:
            consts(c)
        lo, hi = st.ivals.get(T.sym(sym, bits), (0, 0))
        cs.update(x & ((1 << bits) - 1) for x in (lo, lo - 1, hi, hi + 1))
    for k in range(bits):
        cs.add(1 << k)
        cs.add(((1 << bits) - 1) ^ (1 << k))
    x = 12345
    for k in range(40):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        cs.add((x >> 3) & ((1 << bits) - 1))
    return sorted(cs)


def holdsn(st, sym, bits, v):
    x = T.sym(sym, bits)
    iv = st.ivals.get(x)
    if iv and not iv[0] <= v <= iv[1]:
        return False
    for c, b in st.facts.items():
        r = T.subst(c, {x: v})
        if isc(r) and r != b:
            return False
    return True


def base_objs(fmt="-elf", extra=()):
    a = R32 if big(fmt) else R16
    s = [TEXT(64, [(8, ("sect", 0), a), (16, ("sect", 1), a), (20, ("sect", 2), a), (24, "__start", a), (32, "loc", a)], align=4), DATA(16), BSS(8)] + list(extra)
    return [Obj("a.o", s, [("loc", 1, 4, LOCAL), ("__start", 0, 3, GLOBAL)])]


# field, offset, bytes, accepted values
HDR = [("magic0", 0, 1, (0x7f,)), ("magic1", 1, 1, (0x45,)), ("magic2", 2, 1, (0x4c,)), ("magic3", 3, 1, (0x46,)), ("class", 4, 1, (1,)), ("byte order", 5, 1, (1,)),
       ("ident version", 6, 1, (1,)), ("type", 16, 2, (1,)), ("machine", 18, 2, (3,)), ("header size", 40, 2, (52,)), ("section header size", 46, 2, (40,))]


def refuse_jobs(thorough):
    out = [("hdr", k, fmt) for k in range(len(HDR)) for fmt in (("-elf", "-small") if not thorough else ("-elf", "-small", "-flat32", "-huge"))]
    out += [("zero", k) for k in ("shoff", "shstrndx")]
    out += [("shtype", fl, t) for fl in (0, 2) for t in list(range(12)) + ["high", "low"]]
    for fmt in FORMATS:
        for k in (0, 1, 2):
            for al in (0, 1, 2, 3, 4, 5, 6, 8, 12, 16, 24, 32, 48, 64, 4096, 4097, 8192, 1 << 31, 0xC0000000):
                if thorough or fmt in ("-huge", "-elf", "-small") or al in (3, 6, 16, 32, 48, 4096, 8192):
                    out.append(("align", fmt, k, al))
    kinds = ["x", "xw", "xb", "xwb", "w", "r", "b", "wb"]
    for a in kinds:
        out.append(("flags1", a))
        for b in kinds:
            if a in ("x", "w", "r", "b", "wb") and b in ("x", "w", "r", "b", "wb"):
                out.append(("flags2", a, b))
    out += [("noexec", fmt) for fmt in ("-elf", "-tiny", "-pe", "-aout")]
    out += [("symndx", fmt, ndx, ref) for fmt in ("-elf", "-huge", "-flat16") for ndx in (0xfff1, 0xfff2) for ref in ("reloc", "entry", "map", "local")]
    out += [("table", k) for k in ("sym entsize", "sym info", "sym empty", "rel entsize", "rel empty")]
    out += [("arch", k) for k in ("fmag0", "fmag1", "small", "nlen", "ok")]
    out += [("cut", c, k) for c in ("obj", "arch") for k in range(0, 12)]
    opts = [("-foo",), ("-",), ("-elff",), ("-o",), ("-map",), ("-entry",), ("-stack",), ("-origin",), ("-stub",), ("-pesubsys",), ("-minheap",), ("-maxheap",), ("-ELF",), ("--help",)]
    out += [("option", o, pos) for o in opts for pos in (0, 1)]
    out += [("args", k) for k in ("none", "noformat", "noinputs", "missing")]
    out += [("userrelod", f) for f in ("-unreal", "-huge", "-elf")]
    return out


def refuse_one(job):
    kind = job[0]
    key = ":".join(str(x).replace(" ", "_") for x in job)
    key = key.replace("('", "").replace("',)", "")
    fmt = "-elf"
    want = None          # ("error", why) or ("ok", needed objects)
    symf = None
    sym = {}
    opts = []
    args = None
    loaded = None
    objs = base_objs()
    if kind == "hdr":
        nm, off, n, good = HDR[job[1]]
        fmt = job[2]
        key = "hdr:%s:%s" % (nm.replace(" ", "_"), fmt)
        objs = base_objs(fmt)
        loaded = [Patched(objs[0], [(off, n, "fld")])]
        symf = ("fld", 8 * n, good, "ELF header field '%s'" % nm)
    elif kind == "zero":
        loaded = [Patched(objs[0], [(32, 4, 0)] if job[1] == "shoff" else [(50, 2, 0)])]
        want = ("error", "no section names or headers")
    elif kind == "shtype":
        objs = base_objs(extra=[Sect(".note", 8, job[1], 1)])
        t = job[2]
        loaded = [Patched(objs[0], find=lambda o, n, e: [(shdr(e, 4) + 4, 4, t if isinstance(t, int) else "fld")])]
        if not isinstance(t, int):
            sym = {"fld": (12, 0x7fffffff) if t == "high" else (-1 << 31, -1)}
            want = ("error", "unsupported section type")
        elif t in (0, 1, 3, 8):
            want = ("resolves",)
        elif t not in (2, 9):
            want = ("error", "unsupported section type %d" % t)
    elif kind == "align":
        fmt, k, al = job[1:]
        objs = base_objs(fmt)
        objs[0].sects[k].align = al
        opts = ["-norel"] if fmt == "-pe" else []
        pow2 = al & (al - 1) == 0
        lim = {"-huge": 16, "-pe": 4096, "-elf": 4096, "-mach": 4096}.get(fmt, None)
        code16 = fmt in ("-tiny", "-small", "-flat16") and k == 0
        if not pow2:
            want = ("error", "alignment %d is not a power of two" % al)
        elif lim and al > lim:
            want = ("error", "alignment %d is above the format's limit %d" % (al, lim))
        elif al > 4096 and not code16:
            want = None      # may or may not fit
        else:
            want = ("ok",)
    elif kind in ("flags1", "flags2"):
        def mk(k, name):
            f = A_ | (W_ if "w" in k else 0) | (X_ if "x" in k else 0)
            return Sect(name, 12, f, 4, NOBITS if "b" in k else PROGBITS)
        objs[0].sects.append(mk(job[1], ".foo"))
        objs[0].sects[0].rels.append((40, ("sect", 3), R32))
        if kind == "flags2":
            objs[0].syms.append(("q", None, 0, GLOBAL))
            objs.append(Obj("b.o", [TEXT(16, [(4, ("sect", 0), R32), (8, ("sect", 1), R32)], align=4), mk(job[2], ".foo")], [("q", 0, 0, GLOBAL)]))
        bad = "x" in job[1] and len(job[1]) > 1
        if kind == "flags2":
            bad = bad or job[1] != job[2]
        want = ("error", "contradictory section attributes") if bad else ("ok",)
        if not bad and "b" in job[1] and "w" not in job[1]:
            want = ("resolves",)
    elif kind == "noexec":
        fmt = job[1]
        a = R32 if big(fmt) else R16
        objs = [Obj("a.o", [DATA(32, [(8, ("sect", 0), a)])], [("__start", 0, 3, GLOBAL)])]
        want = ("error", "no code section")
    elif kind == "symndx":
        fmt, ndx, ref = job[1:]
        a = R32 if big(fmt) else R16
        objs = base_objs(fmt)
        objs[0].syms.append(("ax", ndx, 16, LOCAL if ref == "local" else GLOBAL))
        if ref in ("reloc", "local"):
            objs[0].sects[0].rels.append((40, "ax", a))
        elif ref == "entry":
            opts = ["-entry", "ax"]
        else:
            opts = ["-map", "m.txt"]
        want = ("error", "common symbol") if ndx == 0xfff2 else ("symok",)
        if ref == "map" and ndx == 0xfff2:
            want = ("nocrash",)
    elif kind == "table":
        k = job[1]
        typ = 2 if k.startswith("sym") else 9
        f = {"sym entsize": (36, 12), "sym info": (28, 200), "sym empty": (20, 0), "rel entsize": (36, 12), "rel empty": (20, 0)}[k]
        loaded = [Patched(objs[0], find=lambda o, n, e: [(shdr(e, sh_by_type(e, typ)) + f[0], 4, f[1])])]
        want = ("error", "bad table: " + k)
    elif kind == "arch":
        k = job[1]
        ar = Archive("l.a", objs, extra=False)
        if k in ("fmag0", "fmag1"):
            o = 8 + 58 + (k == "fmag1")
            loaded = [Patched(ar, [(o, 1, "fld")])]
            symf = ("fld", 8, (0x60,) if k == "fmag0" else (0x0a,), "archive header magic")
        elif k == "small":
            loaded = [Patched(ar, [(8 + 48 + j, 1, c) for j, c in enumerate(b"51        ")])]
            want = ("error", "archive member smaller than an ELF header")
        elif k == "nlen":
            loaded = [Patched(ar, [(8 + j, 1, c) for j, c in enumerate(b"#1/100000       ")])]
            want = ("error", "member name longer than the member")
        else:
            loaded = [ar]
            want = ("ok",)
    elif kind == "cut":
        a = objs[0] if job[1] == "obj" else Archive("l.a", objs, extra=False)
        k = job[2]
        loaded = [Patched(a, size=lambda n: (n * k) // 12 + (0 if k else 3))]
        if job[1] == "obj" or (n_of(a) * k) // 12 >= 68 or k < 1:
            want = ("error", "truncated file")
        else:
            want = ("error", "truncated file")
    elif kind == "option":
        o, pos = job[1], job[2]
        a = ["-elf", "-o", "out.bin", "a.o"]
        args = (list(o) + a) if pos == 0 else a + list(o)
        takes = o[0] in ("-o", "-map", "-entry", "-stack", "-origin", "-stub", "-pesubsys", "-minheap", "-maxheap")
        if takes and pos == 0:
            return key, [], 0
        want = ("error", "invalid option %s" % o[0])
    elif kind == "args":
        args = {"none": [], "noformat": ["-o", "out.bin", "a.o"], "noinputs": ["-elf", "-o", "out.bin"], "missing": ["-elf", "a.o", "nofile.o"]}[job[1]]
        want = ("error", "command line: " + job[1])
    elif kind == "userrelod":
        fmt = job[1]
        objs = base_objs(fmt, extra=[RODATA(16, name=".relod")])
        objs[0].sects[0].rels.append((40, ("sect", 3), R32))
        want = ("error", "the unreal format makes its own .relod") if fmt == "-unreal" else ("ok",)
    loaded = loaded or objs
    case = Case(key, fmt, objs, opts=opts, loaded=loaded, entry="__start")
    try:
        I, fin = lnk.run(_M[0], args if args is not None else case.args(), loaded, sym=sym)
    except AnalysisError as e:
        if isfault(e):
            return key, [(key + "|memory", "main", "memory error while linking: %s" % e)], 1
        if kind == "cut" and e.short:
            return key, [(key + "|short", "main", "after a short read of %s (line %d) the link goes on with bytes that are not there (%s)" % (e.short[1], e.short[0], e))], 1
        if kind == "shtype" and not isinstance(job[2], int):
            v, n = [], 0
            for t in [12, 13, 14, 15, 17, 18] + [1 << k for k in range(4, 32)] + [(1 << k) + 8 for k in range(4, 32)] + [(1 << k) + 1 for k in range(4, 32)]:
                r = refuse_one((kind, job[1], t))
                v += r[1]
                n += r[2]
            if v:
                return key, v, n
        raise
    v, n = [], 0
    for st in fin:
        n += 1
        if not lnk.ok(st) and not lnk.failed(st):
            v.append((key + "|status", lnk.where(st), "the linker neither succeeds nor fails"))
    if symf:
        nm, bits, good, what = symf
        for x in values(fin, nm, bits, good):
            n += 1
            hit = [st for st in fin if holdsn(st, nm, bits, x)]
            if not hit:
                raise AnalysisError("no path for %s = %d" % (what, x))
            if x not in good and any(lnk.ok(st) for st in hit):
                v.append((key + "|accepted:%d" % x, "main", "%s %d is not supported but the link succeeds" % (what, x)))
            if x in good and any(not lnk.ok(st) for st in hit):
                v.append((key + "|rejected:%d" % x, lnk.where([st for st in hit if not lnk.ok(st)][0]), "%s %d is rejected" % (what, x)))
        return key, v, n
    for st in fin:
        if want is None or want[0] == "nocrash":
            continue
        if want[0] == "error":
            if not lnk.failed(st):
                v.append((key + "|accepted", "main", "the link succeeds although its input has the error: %s" % want[1]))
        elif want[0] == "symok":
            if lnk.ok(st) and kind == "symndx":
                v += abscheck(case, st, key, ref)
        elif not lnk.ok(st):
            v.append((key + "|rejected", lnk.where(st), "a valid link is rejected: %s" % lnk.message(st)))
        elif want[0] == "ok":
            a, k = Checker(case, st, key).run()
            v += a
            n += k
    return key, v, n


def n_of(a):
    return a.image()[0]


def abscheck(case, st, key, ref):
    """an absolute symbol, when accepted, keeps its value"""
    if ref != "reloc":
        return []
    o = image.Out(st, "out.bin")
    c = Checker(case, st, key)
    v, n = c.run()
    sa = c.sym(("glob", "ax")) if not v else None
    if sa is not None and not (sa.isconst() and sa.c == 16):
        v.append((key + "|value", "main", "the absolute symbol with value 16 resolves to %s" % sa))
    return v


def refused(R):
    R.files = ("smlrl.c",)
    models()
    for key, v, n in par.pmap(refuse_one, refuse_jobs(R.thorough), 4):
        R.count("links analysed")
        R.count("obligations", n)
        R.count("%s links" % key.split(":")[0])
        for x in v[:3]:
            R.violation(*x)
    R.need("hdr links", 20)
    R.need("align links", 100)
    R.need("flags2 links", 20)
    R.need("cut links", 20)
    R.rule("Abstract interpretation of the linker from main() on object files, archives and command lines with one fault each (identification fields and section types symbolic, "
           "attributes, alignments, tables, truncation and options enumerated): unsupported input ends in a diagnostic and failure, its supported neighbours still link correctly.")


# ---- size limits
def limit_cases():
    """name, format, objects, options, sym, terms (coefficients of the size expression), constant, limit, slack[, lower limit on a symbol]"""
    out = []
    HI = 200000

    def obj(sects, entry=0):
        fx = []
        for s in sects:
            fx.append(s)
        return [Obj("a.o", fx, [("__start", 0, entry, GLOBAL)])]
    for fmt in ("-tiny", "-small"):
        for stk in (None, 4096, 20000, 0xFFFC):
            S = stk or 8192
            o = ["-stack", str(stk)] if stk else []
            lim = 0xFFFC - S
            if fmt == "-tiny":
                for e in (0, 5):
                    out.append(("text entry+%d stack %s" % (e, stk), fmt, obj([TEXT(("t1", 160, HI), align=1)], e), o, {}, ("t1",), 0x100 + (3 if e else 0), lim, 0))
                out.append(("data stack %s" % stk, fmt, obj([TEXT(100, align=1), DATA(("d1", 160, HI), align=1)]), o, {}, ("d1",), 0x100 + 100, lim, 0))
                out.append(("bss stack %s" % stk, fmt, obj([TEXT(100, align=1), DATA(11, align=1), BSS(("b1", 1, HI), align=1)]), o, {}, ("b1",), 0x100 + 111, lim, 0))
                out.append(("all stack %s" % stk, fmt, obj([TEXT(("t1", 160, HI), align=4), DATA(("d1", 160, HI), align=4), BSS(("b1", 1, HI), align=2)]), o, {}, ("t1", "d1", "b1"), 0x100, lim, 3 + 3 + 1))
            else:
                out.append(("code stack %s" % stk, fmt, obj([TEXT(("t1", 160, HI), align=1), DATA(12)]), o, {}, ("t1",), 64 if 4 + 12 <= lim else 1 << 20, 0x10000, 0))
                out.append(("data stack %s" % stk, fmt, obj([TEXT(100, align=1), DATA(("d1", 160, HI), align=1)]), o, {}, ("d1",), 4, lim, 0))
                out.append(("bss stack %s" % stk, fmt, obj([TEXT(100, align=1), RODATA(7, align=1), BSS(("b1", 1, HI), align=1)]), o, {}, ("b1",), 4 + 7, lim, 0))
                out.append(("both stack %s" % stk, fmt, obj([TEXT(100, align=1), DATA(("d1", 160, HI), align=4), BSS(("b1", 1, HI), align=8)]), o, {}, ("d1", "b1"), 4, lim, 3 + 7))
    for fmt, lo, hi, used in (("-tiny", 4096, 0xFFFC - 0x100 - 100, 0), ("-small", 4096, 0xFFFC - 4 - 16, 0), ("-huge", 8192, 0xFFFC, 0), ("-unreal", 8192, 0xFFFC, 0)):
        out.append(("stack", fmt, obj([TEXT(84 if fmt == "-tiny" else 100, align=4), DATA(16, align=4)]), ["-stack", "$stk"], {"stk": (0, 0x7fffffff)}, ("stk",), 0, hi, 0, lo))
        out.append(("big stack", fmt, obj([TEXT(84 if fmt == "-tiny" else 100, align=4), DATA(16, align=4)]), ["-stack", "$stk"], {"stk": (-0x80000000, -2)}, ("stk",), 1 << 32, hi, 0, lo))
    for e in (0, 5):
        j = 3 if e else 0
        for org in (0, 0x7c00, 0xfff0):
            out.append(("text entry+%d origin %#x" % (e, org), "-flat16", obj([TEXT(("t1", 160, HI), align=1)], e), ["-origin", str(org)], {}, ("t1",), org + j, 0x10000, 0))
        out.append(("origin entry+%d" % e, "-flat16", obj([TEXT(200, align=1)], e), ["-origin", "$org"], {"org": (0, 0x7fffffff)}, ("org",), 200 + j, 0x10000, 0))
        out.append(("both entry+%d" % e, "-flat16", obj([TEXT(("t1", 160, HI), align=4), DATA(("d1", 160, HI), align=4), BSS(("b1", 1, HI), align=4)], e), [], {}, ("t1", "d1", "b1"), j, 0x10000, 3 + 3 + 3))
    M32 = 0x7fff0000
    # the 512 KB of the huge and unreal models; slack covers the header
    for fmt in ("-huge", "-unreal"):
        for nm, s in (("text", [TEXT(("t1", 160, M32), align=1)]), ("data", [TEXT(100, align=1), DATA(("t1", 160, M32), align=1)]),
                      ("bss", [TEXT(100, align=1), DATA(20, align=1), BSS(("t1", 1, M32), align=1)])):
            out.append((nm, fmt, obj(s), [], {}, ("t1",), {"text": 0, "data": 100, "bss": 120}[nm], 524288, 64))
    # the 32-bit address space
    for fmt, base in (("-flat32", 0), ("-elf", 0x08048000), ("-pe", 0x400000), ("-mach", 0x1000), ("-aout", 0)):
        o = ["-norel"] if fmt == "-pe" else []
        for n, org, s, tm in (("text+data", 0x40000000, [TEXT(("t1", 160, M32), align=4), DATA(("d1", 160, M32), align=4)], ("t1", "d1")),
                              ("data+bss", 0x40000000, [TEXT(100, align=4), DATA(("t1", 160, M32), align=4), BSS(("d1", 160, M32), align=4)], ("t1", "d1")),
                              ("text", 0xA0000000, [TEXT(("t1", 160, M32), align=4)], ("t1",)),
                              ("text+some", 0xA0000000, [TEXT(("t1", 160, M32), align=4), DATA(20)], ("t1",))):
            if fmt == "-aout":
                org = 0
            out.append((n, fmt, obj(s), o + ([] if fmt == "-aout" else ["-origin", str(org)]), {}, tm, org, (1 << 32) - 1, 0x5000))
    return out


def brange(st, e):
    """interval of a linear form, using every inequality known on the path; sums that
    are known (not) to wrap around 2^32 are replaced by their exact values"""
    lo, hi = rel.rng(st, e)
    M = 1 << 32
    exact = {}

    def sub(f):
        while True:
            for a in f.d:
                if a in exact:
                    k = f.d[a]
                    g = L({x: c for x, c in f.d.items() if x is not a}, f.c)
                    f = g.plus(exact[a].scale(k))
                    break
            else:
                return f

    def use(d):
        nonlocal lo, hi
        hi = min(hi, rel.rng(st, e.plus(d))[1])
        lo = max(lo, rel.rng(st, e.minus(d))[0])
    for c, b in st.facts.items():
        if c.op != "cmp" or c.args[0] not in ("ult", "slt"):
            continue
        pred, x, y, w = c.args
        try:
            A, B = rel.exact(st, x, w), rel.exact(st, y, w)
        except AnalysisError:
            continue
        if pred == "slt" and (rel.rng(st, A)[1] >= 1 << (w - 1) or rel.rng(st, B)[1] >= 1 << (w - 1)):
            continue
        A, B = sub(A), sub(B)
        at = [q for q in A.d if q.kind == "rem" and q.m == M]
        if len(at) == 1 and A.d[at[0]] == 1:
            a = at[0]
            X = sub(L({q: (z if z <= M // 2 else z - M) for q, z in a.x.d.items()}, a.x.c))
            R = L({q: z for q, z in A.d.items() if q is not a}, A.c)
            l, h = rel.rng(st, X.plus(R).minus(B))
            if l < 0 or h >= M:
                X = X.minus(K(l // M * M))
                l, h = l - l // M * M, h - l // M * M
            if 0 <= l and h < M:
                if b:
                    exact[a] = X.minus(K(M))
                    use(X.minus(K(M)))
                else:
                    exact[a] = X
                    use(K(M - 1).minus(X))
                continue
        use(B.minus(A).minus(K(1)) if b else A.minus(B))
    return lo, hi


def limit_one(c):
    name, fmt, objs, opts, sym, terms, const, limit, slack = c[:9]
    lower = c[9] if len(c) > 9 else None
    key = "limit:%s:%s" % (fmt, name.replace(" ", "_"))
    case = Case(key, fmt, objs, opts=opts, sym=sym)
    I, fin = lnk.run(_M[0], case.args(), objs, sym=sym)
    v, n, oks = [], 0, 0
    for st in fin:
        n += 1
        e = K(const)
        for t in terms:
            e = e.plus(rel.exact(st, T.sym(t, 32), 64) if not (const == 1 << 32 and t == "stk") else rel.exact(st, T.sym(t, 32), 64))
        if name == "big stack":
            # the option value is above 2^31: never acceptable
            if lnk.ok(st):
                v.append((key + "|over", "main", "a stack of 2 GB or more is accepted"))
            continue
        lo, hi = brange(st, e)
        if lnk.ok(st):
            oks += 1
            if hi > limit:
                v.append((key + "|over", "main", "the link succeeds for a size up to %s although the limit is %s" % (hi, limit)))
            if lower is not None and lo < lower:
                v.append((key + "|under", "main", "the link succeeds for a size of %s although at least %s is required" % (lo, lower)))
        elif lnk.failed(st):
            if lo + slack <= limit and not (lower is not None and hi < lower):
                v.append((key + "|refused", lnk.where(st), "the link is refused for sizes %s..%s although the limit is %s: %s" % (lo, hi, limit, lnk.message(st))))
        else:
            v.append((key + "|status", lnk.where(st), "the linker neither succeeds nor fails"))
    reach = const + (160 if terms[0] != "b1" else 1) <= limit
    if name != "big stack" and not oks and reach and not v:
        v.append((key + "|refused", "main", "no size is accepted"))
    return key, v, n


def fxnsz_one(job):
    fmt, k, nobj, lib = job
    key = "limit:%s:function_sizes_%d_%d" % job[:3] + (":library" if lib else "")
    a = R32
    objs = []
    for i in range(nobj):
        s = [TEXT(32, [(8, ("sect", 0), a), (16, ("sect", 1), a)], align=4), DATA(16), Sect(".fxnsz", 4 * k, 0, 1)]
        syms = [("__start" if i == 0 else "q%d" % i, 0, 0, GLOBAL)] + [("q%d" % j, None, 0, GLOBAL) for j in range(1, nobj) if i == 0]
        objs.append(Obj("o%d.o" % i, s, syms))

    def mk(i):
        return Patched(objs[i], find=lambda o, n, e: [(word(e, shdr(e, 3) + 16, 4) + 4 * j, 4, "fs%d_%d" % (i, j)) for j in range(k)])
    files = [mk(i) for i in range(nobj)]
    if lib:
        files = files[:1] + [Archive("l.a", files[1:])]
    I, fin = lnk.run(_M[0], [fmt, "-o", "out.bin"] + [o.name for o in files], files)
    v, n = [], 0
    for st in fin:
        n += 1
        worst = 0
        least = True
        for i in range(nobj):
            for j in range(k):
                for b in (T.sym("fs%d_%d" % (i, j), 32),):
                    lo, hi = brange(st, rel.exact(st, b, 64))
                    worst = max(worst, hi)
                    least = least and lo < 65000
        if lnk.ok(st) and worst > 65521:
            v.append((key + "|over", "main", "the link succeeds with a function of up to %d bytes" % worst))
        elif not lnk.ok(st) and least:
            v.append((key + "|refused", lnk.where(st), "the link is refused although every function fits: %s" % lnk.message(st)))
    return key, v, n


def lim_dispatch(j):
    return limit_one(j[1]) if j[0] == "l" else fxnsz_one(j[1])


def limits(R):
    R.files = ("smlrl.c",)
    models()
    jobs = [("l", c) for c in limit_cases()] + [("f", (f, k, n, l)) for f in ("-huge", "-unreal") for k in (1, 3) for n in (1, 2, 3) for l in (0, 1) if n > 1 or not l if n < 3 or l and k == 1]
    for key, v, n in par.pmap(lim_dispatch, jobs, 1):
        R.count("limits analysed")
        R.count("paths", n)
        R.sample(key)
        for x in v[:3]:
            R.violation(*x)
    R.need("limits analysed", 60)
    R.rule("Abstract interpretation of the linker with symbolic section sizes, origin and stack size spanning the format's limits: on every successful path the derived interval of the "
           "occupied size stays within the limit, on every failing path it lies beyond it (exactly, where no alignment padding can intervene).")


# ---- failing I/O
def io_objs(fmt):
    a = R32 if big(fmt) else R16
    main = Obj("a.o", [TEXT(64, [(8, ("sect", 0), a), (16, ("sect", 1), a), (20, ("sect", 2), a), (24, "__start", a), (28, "f", a), (36, "gd", a)], align=4), DATA(22), BSS(8)],
               [("__start", 0, 3, GLOBAL), ("gd", 1, 2, GLOBAL), ("f", None, 0, GLOBAL)])
    lib = [Obj("m0.o", [TEXT(12, [(4, ("sect", 0), a)], align=4)], [("unused", 0, 0, GLOBAL)]),
           Obj("m1.o", [TEXT(32, [(4, ("sect", 0), a), (8, ("sect", 1), a)], align=8), RODATA(10)], [("f", 0, 1, GLOBAL)])]
    return main, lib


STUB = None


def io_jobs(thorough):
    out = []
    for fmt in FORMATS:
        out.append((fmt, False, "io"))
        out.append((fmt, True, "io"))
        out.append((fmt, True, "mem"))
    out.append(("-aout", "stub", "io"))
    return out


def io_one(job):
    fmt, mp, what = job
    key = "io:%s:%s:%s" % (fmt, {True: "map", False: "plain", "stub": "stub"}[mp], what)
    main, lib = io_objs(fmt)
    files = [main, Archive("l.a", lib)]
    opts = ["-norel"] if fmt == "-pe" else []
    if mp is True:
        opts += ["-map", "m.txt"]
    fl = []
    if mp == "stub":
        fl = [("stub.exe", stubfile(200))]
        opts += ["-stub", "stub.exe"]
    case = Case(key, fmt, [main, lib[1]], opts=opts, loaded=files)
    if mp == "stub":
        case.stubsize = 264
    v, n, pts, good = [], 0, 0, 0

    def recover(s, e):
        f = s.user.get("fail")
        if not isinstance(f, tuple):
            return False
        op, line, fr = f
        v.append((key + "|continues:%s at %s:%d" % (op, fr[-1][0], line), "%s:%d" % (fr[-1][0], line),
                  "after a failing %s the linker goes on with undefined data (%s)" % (op, str(e)[:80])))
        return True

    I, fin = lnk.run(_M[0], case.args(), files, fail="armed", failmem=what == "mem", fillev=False, files=fl, maxstates=100000, recover=recover)
    for st in fin:
        n += 1
        f = st.user["fail"]
        if f == "armed" or f is None:
            good += 1
            if not lnk.ok(st):
                v.append((key + "|rejected", lnk.where(st), "a valid link without failures is rejected: %s" % lnk.message(st)))
            continue
        pts += 1
        op, line, fr = f
        where = "%s:%d" % (fr[-1][0], line) + "".join(" < %s:%s" % (g[0], h[1]) for g, h in zip(reversed(fr[:-1]), reversed(fr)))
        k = "%s at %s:%d" % (op, fr[-1][0], line)
        if lnk.ok(st):
            if op in ("fread", "fseek"):
                try:
                    a, _ = Checker(case, st, key).run()
                except (AnalysisError, KeyError) as e:
                    a = [(0, 0, str(e)[:80])]
                if not a:
                    continue
            v.append((key + "|ignored:" + k, where, "a failing %s is ignored: the link succeeds%s" % (op, ": " + a[0][2] if op in ("fread", "fseek") else "")))
            continue
        if not lnk.failed(st):
            v.append((key + "|status:" + k, where, "after a failing %s the linker does not report failure" % op))
            continue
        if not any(x[0] == "print" and x[1].strip() for x in st.user["io"]):
            v.append((key + "|silent:" + k, where, "after a failing %s the linker gives no diagnostic" % op))
        o = st.user["order"]
        ci = [i for i, x in enumerate(o) if x == ("create", "out.bin")]
        if ci and ("remove", "out.bin") not in o[ci[-1]:]:
            v.append((key + "|left:" + k, where, "after a failing %s the partial output file is left behind" % op))
        if ci and any(h[0] == "out.bin" for h in st.user["fh"].values()) and op != "fclose":
            v.append((key + "|open:" + k, where, "after a failing %s the output file is removed while still open" % op))
    if not good:
        v.append((key + "|rejected", "main", "no path without failures"))
    return key, v, n, pts


def stubfile(n):
    b = bytearray(n)
    b[0:2] = b"MZ"
    b[2:4] = (n % 512).to_bytes(2, "little")
    b[4:6] = ((n + 511) // 512).to_bytes(2, "little")
    b[8:10] = (4).to_bytes(2, "little")
    b[24:26] = (64).to_bytes(2, "little")
    b[64:68] = (0x21245044).to_bytes(4, "little")
    return bytes(b)


def iofail(R):
    R.files = ("smlrl.c",)
    models()
    for key, v, n, pts in par.pmap(io_one, io_jobs(R.thorough), 1):
        R.count("links analysed")
        R.count("failure points", pts)
        R.count("paths", n)
        R.sample(key)
        for x in v[:6]:
            R.violation(*x)
    R.need("failure points", 2000)
    R.rule("Abstract interpretation of the linker with every open, read, write, seek, close and allocation call failing once: each such path ends in a diagnostic, a failure status and "
           "removal of the output file (after closing it), or produces the complete correct image.")
    R.assume.append("A failed formatted write to the map file makes its later fclose fail too (sticky stream error); failures of closing read-only files are ignored.")
