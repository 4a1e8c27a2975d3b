"""Compiler driver: tool pipeline per option, failures and clean-up, quoting, archives."""
import itertools
import terms as T, build, drv, par, stdio
from terms import isc
from drv import W, low, show, Ambiguous
from sai import AnalysisError, isfault

# documented targets: option -> (memory model of the compiler, macros, linker format, library, default output, C library?, win stack probes)
TARGETS = {
    "-tiny": ("-seg16", (), "-tiny", None, "a.com", 0, 0),
    "-dost": ("-seg16", ("_DOS",), "-tiny", "lcds.a", "a.com", 1, 0),
    "-small": ("-seg16", (), "-small", None, "a.exe", 0, 0),
    "-doss": ("-seg16", ("_DOS",), "-small", "lcds.a", "a.exe", 1, 0),
    "-huge": ("-huge", (), "-huge", None, "a.exe", 0, 0),
    "-dosh": ("-huge", ("_DOS",), "-huge", "lcdh.a", "a.exe", 1, 0),
    "-unreal": ("-unreal", (), "-unreal", None, "a.exe", 0, 0),
    "-dosu": ("-unreal", ("_DOS",), "-unreal", "lcdu.a", "a.exe", 1, 0),
    "-aout": ("-seg32", (), "-aout", None, "a.out", 0, 0),
    "-dosp": ("-seg32", ("_DOS", "_DPMI"), "-aout", "lcdp.a", "a.exe", 1, 0),
    "-pe": ("-seg32", (), "-pe", None, "a.exe", 0, 0),
    "-win": ("-seg32", ("_WINDOWS",), "-pe", "lcw.a", "a.exe", 1, 1),
    "-elf": ("-seg32", (), "-elf", None, "a.out", 0, 0),
    "-linux": ("-seg32", ("_LINUX",), "-elf", "lcl.a", "a.out", 1, 0),
    "-macos": ("-seg32", ("_MACOS",), "-mach", "lcm.a", "a.out", 1, 0),
    "-flat16": ("-seg16", (), "-flat16", None, "a.bin", 0, 0),
    "-flat32": ("-seg32", (), "-flat32", None, "a.bin", 0, 0),
}
HOSTS = {"linux": ((), "-linux"), "macos": (("-UHOST_LINUX", "-DHOST_MACOS"), "-macos"),
         "windows": (("-UHOST_LINUX", "-DHOST_WINDOWS"), "-win"), "dos": (("-UHOST_LINUX", "-DHOST_DOS"), "-dosh")}
LONGWCHAR = ("-elf", "-mach")
PPMODEL = {"-seg16": ("__SMALLER_C_16__",), "-seg32": ("__SMALLER_C_32__",), "-huge": ("__SMALLER_C_32__", "__HUGE__"),
           "-unreal": ("__SMALLER_C_32__", "__UNREAL__")}
PPARG = ("-D", "-I", "-J", "-U", "-o", "-isystem")
CCARG = ("-D", "-I", "-SI")
LDARG = ("-map", "-pesubsys", "-entry", "-origin", "-stack", "-minheap", "-maxheap", "-stub", "-o")

_M = {}


def mod(host="linux"):
    if host not in _M:
        _M[host] = build.load("smlrcc", HOSTS[host][0], libc=True)
    return _M[host]


class Sc:
    """one command line: options in order, files, environment"""

    def __init__(self, key, args, target=None, pp="smlrpp", mode="link", out=None, env=None, asm=None, host="linux",
                 defs=(), incs=(), sysinc=(), lib=None, flags=(), ld=(), stub=None, exist="prefix"):
        self.__dict__.update(locals())
        self.args = [W(a) if isinstance(a, str) else a for a in args]
        if asm is None:
            self.asm = W("nasm" if unixl(host) else "nasm.exe")


def unixl(h):
    return h in ("linux", "macos")


def b(x):
    return (W(x) if isinstance(x, str) else x).b


PREFIX = "/usr/local/smlrc/"


def swap(w, new):
    """file name with its suffix replaced"""
    bb = w.b
    i = len(bb) - 1
    while bb[i] != 46:
        i -= 1
    r = W(new)
    x = W()
    x.b = bb[:i + 1] + r.b
    x.iv = w.iv
    return x


def kind(w):
    s = show(w.b).lower()
    return s.rsplit(".", 1)[1]


def expect(sc, found):
    """the tool runs the documentation promises: list of records; and intermediates, outputs"""
    tg = sc.target or HOSTS[sc.host][1]
    model, macros, lf, lib, dout, std, wst = TARGETS[tg]
    files = [a for a in sc.files]
    ex = "" if unixl(sc.host) else ".exe"
    runs, inter, outs = [], [], []
    cfg = {"char": "s", "wsign": "u", "wsize": "s", "us": "y", "winstack": bool(wst), "bss": True, "wall": False}
    if lf in LONGWCHAR:
        cfg["wsign"], cfg["wsize"] = "s", "l"
    for f in sc.flags:
        setcfg(cfg, f)
    inc, libpath, stub = found
    pp = sc.pp
    defs = [W(m) for m in macros] + list(sc.defs)
    sysinc = list(sc.sysinc) + ([inc] if inc else [])
    ppdefs = ["__SMALLER_C__"] + list(PPMODEL[model]) + ["__SMALLER_C_%sCHAR__" % cfg["char"].upper(), "__SMALLER_C_%sWCHAR__" % cfg["wsign"].upper(),
                                                           "__SMALLER_C_WCHAR%s__" % ("16" if cfg["wsize"] == "s" else "32"), "__SMALLER_PP__"]
    link = sc.mode == "link"
    arch = sc.mode == "ar"
    objs, ars = [], []
    out = sc.out
    if link and out is None:
        out = W(dout)
    for f in files:
        k = kind(f)
        if k in ("o", "a"):
            objs.append(f)
            if k == "o":
                ars.append(f)
            continue
        src = f
        if k == "c" and pp != "none":
            i = swap(f, "i")
            base = {"smlrpp": ("smlrpp" + ex, {"-zI": None}), "gcc": ("gcc" + ex, {"-E": None, "-undef": None, "-nostdinc": None})}[pp]
            runs.append(("pp", b(base[0]), frozenset(base[1]), frozenset(x.b for x in defs) | frozenset(b(x) for x in ppdefs), tuple(x.b for x in sc.defs),
                         tuple(x.b for x in sc.incs), tuple(x.b for x in sysinc), f.b, i.b))
            inter.append(i.b)
            src = i
        if k in ("c", "i"):
            if sc.mode == "S" and out is not None and len(files) == 1:
                a = out
            else:
                a = swap(f, "asm")
            runs.append(("cc", b("smlrc" + ex), model, tuple(sorted(cfg.items())), pp != "none",
                         frozenset(x.b for x in defs) if pp == "none" else frozenset(), tuple(x.b for x in sc.defs) if pp == "none" else (),
                         tuple(x.b for x in sc.incs) if pp == "none" else (), tuple(x.b for x in sysinc) if pp == "none" else (), src.b, a.b))
            if sc.mode == "S":
                outs.append(a.b)
                continue
            inter.append(a.b)
        else:
            a = f
            if sc.mode == "S":
                continue
        if sc.mode == "c" and out is not None and len(files) == 1:
            o = out
        else:
            o = swap(f, "o")
        runs.append(("as", sc.asm.b, a.b, o.b))
        if link or arch:
            inter.append(o.b)
        else:
            outs.append(o.b)
        objs.append(o)
        ars.append(o)
    if link:
        ld = list(sc.ld)
        st_ = None
        if sc.stub is not None:
            st_ = sc.stub
        elif stub:
            st_ = stub
        runs.append(("ld", b("smlrl" + ex), lf, tuple(x.b for x in objs) + ((libpath.b,) if libpath else ()),
                     tuple(sorted((k, v.b if v is not None else None) for k, v in ld)), st_.b if st_ is not None else None, out.b, not cfg["bss"]))
        if unixl(sc.host) and lf in ("-elf", "-mach"):
            runs.append(("chmod", out.b))
        outs.append(out.b)
    if arch:
        outs.append(out.b)
    return runs, inter, outs, ars, out


def setcfg(cfg, f):
    d = {"-signed-char": ("char", "s"), "-unsigned-char": ("char", "u"), "-signed-wchar": ("wsign", "s"), "-unsigned-wchar": ("wsign", "u"),
         "-short-wchar": ("wsize", "s"), "-long-wchar": ("wsize", "l"), "-leading-underscore": ("us", "y"), "-no-leading-underscore": ("us", "n"),
         "-winstack": ("winstack", True), "-nobss": ("bss", False), "-Wall": ("wall", True)}
    if f not in d:
        return False
    cfg[d[f][0]] = d[f][1]
    return True


class Bad(Exception):
    pass


def opts(words, witharg, glued=()):
    """-> [(option, argument or None)], positionals"""
    o, pos = [], []
    i = 1
    while i < len(words):
        w = words[i]
        s = "".join(chr(c) if isc(c) else "\0" for c in w)
        if s.startswith("-") and len(s) > 1:
            if s in witharg:
                if i + 1 >= len(words):
                    raise Bad("option %s lacks its argument" % s)
                o.append((s, words[i + 1]))
                i += 2
                continue
            for g in glued:
                if s.startswith(g) and len(s) > len(g):
                    o.append((g, w[len(g):]))
                    break
            else:
                o.append((s, None))
            i += 1
            continue
        pos.append(w)
        i += 1
    return o, pos


def record(st, sc, cmd, asmname, outs=None):
    """what a command asks its tool to do"""
    ws = [drv.canon(st, w) for w in (drv.sh_words if unixl(sc.host) else drv.ms_words)(st, cmd)]
    if not ws:
        raise Bad("empty command")
    if sc.host == "dos":
        if len(cmd) > 123 + (4 if show(ws[0]).endswith("zzz") else 0):
            raise Bad("a command of %d characters exceeds what DOS can pass" % len(cmd))
        for i, w in enumerate(ws):
            if w and w[0] == 64 and i:
                c = content(outs.get(show(w[1:])))
                if c is None:
                    raise Bad("the response file %s has not been written completely" % show(w[1:]))
                ws[i:i + 1] = [tuple(x) for x in splitws(c)]
    t = show(ws[0])
    t0 = t[:-4] if t.endswith(".exe") else t
    if ws[0] == asmname.b:
        o, pos = opts(ws, ("-f", "-o"))
        d = dict(o)
        if sorted(k for k, _ in o) != ["-f", "-o"] or show(d["-f"]) not in ("elf", "elf32") or len(pos) != 1:
            raise Bad("assembler command %s" % show(cmd))
        return ("as", ws[0], pos[0], d["-o"])
    if t0 in ("smlrpp", "gcc"):
        gcc = t0 == "gcc"
        o, pos = opts(ws, PPARG, ("-D", "-I", "-J", "-U"))
        outs = [v for k, v in o if k == "-o"]
        if len(outs) != 1 or len(pos) != 1:
            raise Bad("preprocessor command %s" % show(cmd))
        base = frozenset(k for k, v in o if v is None)
        if not gcc and ("-U", b("__STDC_VERSION__")) not in o:
            raise Bad("__STDC_VERSION__ is not undefined for %s" % t)
        if [1 for k, v in o if k == "-U" and (gcc or v != b("__STDC_VERSION__"))]:
            raise Bad("unexpected -U")
        defs = [v for k, v in o if k == "-D"]
        sysk = "-isystem" if gcc else "-J"
        if [1 for k, v in o if k == ("-J" if gcc else "-isystem")]:
            raise Bad("system include option of another preprocessor")
        return ("pp", ws[0], base, frozenset(defs), tuple(v for v in defs if any(x.b == v for x in sc.defs)),
                tuple(v for k, v in o if k == "-I"), tuple(v for k, v in o if k == sysk), pos[0], outs[0])
    if t0 == "smlrc":
        o, pos = opts(ws, CCARG)
        if len(pos) != 2:
            raise Bad("compiler command %s" % show(cmd))
        cfg = {"char": "s", "wsign": "u", "wsize": "s", "us": "y", "winstack": False, "bss": True, "wall": False}
        model = None
        nopp = False
        for k, v in o:
            if k in ("-seg16", "-seg32", "-huge", "-unreal"):
                model = k
            elif k == "-nopp":
                nopp = True
            elif v is None and not setcfg(cfg, k):
                raise Bad("unexpected compiler option %s" % k)
        defs = [v for k, v in o if k == "-D"]
        return ("cc", ws[0], model, tuple(sorted(cfg.items())), nopp, frozenset(defs), tuple(v for v in defs if any(x.b == v for x in sc.defs)),
                tuple(v for k, v in o if k == "-I"), tuple(v for k, v in o if k == "-SI"), pos[0], pos[1])
    if t0 == "smlrl":
        o, pos = opts(ws, LDARG)
        fm = [k for k, v in o if v is None and k in [x[2] for x in TARGETS.values()]]
        d = dict(o)
        rest = [(k, v) for k, v in o if k not in fm and k not in ("-o", "-stub", "-nobss")]
        if not fm or "-o" not in d or len([1 for k, _ in o if k == "-o"]) != 1:
            raise Bad("linker command %s" % show(cmd))
        return ("ld", ws[0], fm[-1], tuple(pos), tuple(sorted(rest, key=lambda x: (x[0], str(x[1])))), d.get("-stub"), d["-o"], "-nobss" in d)
    if t0 == "chmod":
        if len(ws) != 3 or show(ws[1]) not in ("+x", "a+x", "755"):
            raise Bad("chmod command %s" % show(cmd))
        return ("chmod", ws[2])
    raise Bad("unexpected command %s" % show(cmd))


def refine(sc, st):
    """the scenario with bytes known in this state filled in"""
    import copy
    r = copy.copy(sc)

    def c(w):
        if not isinstance(w, W):
            return w
        x = W()
        x.b = drv.canon(st, w.b)
        x.iv = w.iv
        return x
    r.files = [c(x) for x in sc.files]
    r.defs = [c(x) for x in sc.defs]
    r.incs = [c(x) for x in sc.incs]
    r.sysinc = [c(x) for x in sc.sysinc]
    r.ld = [(k, c(v)) for k, v in sc.ld]
    for n in ("out", "asm", "stub", "lib"):
        setattr(r, n, c(getattr(sc, n)))
    return r


def content(ev):
    if ev is None:
        return None
    out = []
    for pos, n, kind_, data, *_ in ev:
        if pos != len(out):
            return None
        out += list(data)
    return out


def splitws(c):
    """words of a response file: separated by white space"""
    out, cur = [], []
    for x in list(c) + [32]:
        if isc(x) and x in (32, 9, 10, 11, 12, 13):
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(x)
    return out


def found(sc, st):
    """where headers, library and stub are to be found given the files that exist"""
    ex = st.user["exist"]

    def has(w):
        return ex.get(w.b)
    tg = sc.target or HOSTS[sc.host][1]
    lib = TARGETS[tg][3]
    std = TARGETS[tg][5]
    places = []   # (include dir, lib dir)
    if sc.lib is not None and std:
        places.append((None, slash(sc.lib)))
    for var, sub in (("SMLRC", ""), ("HOME", "smlrc/")):
        v = sc.env.get(var) if sc.env else None
        if v is None or (var == "HOME" and not unixl(sc.host)):
            continue
        v = slash(W(v) if isinstance(v, str) else v)
        places.append((v + (sub + "include"), v + (sub + "lib/")))
    if unixl(sc.host):
        places.append((W(PREFIX + "include"), W(PREFIX + "lib/")))
    else:
        places.append((W("c:\\sc\\bin\\../include"), W("c:\\sc\\bin\\../lib/")))
    inc = libp = stub = None
    for i, l in places:
        if i is not None and inc is None and has(i + "/limits.h"):
            inc = i
        if std and libp is None and has(l + lib):
            libp = l + lib
            if tg == "-dosp" and sc.stub is None and has(l + "dpstub.exe"):
                stub = l + "dpstub.exe"
    return inc, libp, stub


def slash(w):
    if w.b and w.b[-1] not in (47, 92):
        return w + "/"
    return w


def run_sc(sc, fail=None, failmem=False, files=(), recover=None):
    if sc.exist == "fork":
        ed = "fork"
    elif sc.exist == "none":
        ed = lambda n: False
    else:
        ed = lambda n: True
    env = {k: (W(v) if isinstance(v, str) else v) for k, v in (sc.env or {}).items()}
    return drv.run(mod(sc.host), ["smlrcc" if unixl(sc.host) else "c:\\sc\\bin\\smlrcc.exe"] + sc.args, env=env, existdef=ed, fail=fail, failmem=failmem, files=files, recover=recover)


def sstat(st):
    if st.status == "ret":
        return st.ret if not isc(st.ret) else T.sgn(st.ret, 32)
    if isinstance(st.status, tuple) and st.status[0] == "exit":
        return st.status[1]
    return st.status


def where(st, line):
    return "smlrcc.c:main" if line is None else "main:%d" % line


def diff(e, g):
    if e[0] != g[0]:
        return "runs %s where %s was due" % (name(g), name(e))
    out = []
    for n, x, y in zip(FIELDS[e[0]], e[1:], g[1:]):
        if x != y:
            out.append("%s: %s, should be %s" % (n, sh(y), sh(x)))
    return "%s run with wrong %s" % (name(e), "; ".join(out))


def name(r):
    return {"pp": "preprocessor", "cc": "compiler", "as": "assembler", "ld": "linker", "chmod": "chmod"}[r[0]]


FIELDS = {"pp": ("program", "mode options", "macros", "macro order", "include directories", "system include directories", "input", "output"),
          "cc": ("program", "memory model", "language options", "preprocessing switch", "macros", "macro order", "include directories", "system include directories", "input", "output"),
          "as": ("program", "input", "output"), "ld": ("program", "format", "input order", "options", "stub", "output", "-nobss"), "chmod": ("file",)}


def sh(x):
    if x is None or isinstance(x, (bool, str)):
        return str(x)
    if isinstance(x, frozenset):
        return "{%s}" % ", ".join(sorted(sh(y) for y in x))
    if isinstance(x, tuple):
        if x and all(isinstance(c, (int, T.Term)) for c in x):
            return show(x)
        return "(%s)" % ", ".join(sh(y) for y in x)
    return str(x)


def judge(sc, st):
    """violations of one final state"""
    v = []
    sc = refine(sc, st)
    runs, inter, outs, ars, out = expect(sc, found(sc, st))
    f = st.user["fail"]
    failed = isinstance(f, tuple)
    got = []
    lastline = None
    removed = []
    created = []
    for e in st.user["ev"]:
        if e[0] == "system":
            lastline = e[2]
            try:
                got.append(record(st, sc, e[1], sc.asm, e[3]))
            except Ambiguous as x:
                if x.split:
                    return [y for s2 in drv.split(st, x.split) for y in judge(sc, s2)]
                v.append(("cmd", "System", str(x)[:300]))
                return v
            except Bad as x:
                v.append(("cmd", "System", str(x)[:300]))
                return v
        elif e[0] == "remove":
            removed.append((len(got), drv.canon(st, e[1]), e[2]))
        elif e[0] == "create":
            created.append(drv.canon(st, e[1]))
    ins = [x.b for x in sc.files]
    for i, g in enumerate(got):
        if i >= len(runs):
            v.append(("extra", "main", "an unexpected %s run follows: %s" % (name(g), sh(g))))
            return v
        if g != runs[i]:
            v.append(("run%d" % i, "main", diff(runs[i], g)))
            return v
    ok = sstat(st)
    for _, r, l in removed:
        if r in ins and r not in outs:
            v.append(("rmin", "main:%d" % l, "the input file %s is deleted" % show(r)))
    rset = {r for _, r, _ in removed}
    if not failed:
        if ok != 0:
            v.append(("status", "main", "a valid command line is rejected (status %s: %s)" % (ok, msg(st))))
            return v
        if len(got) < len(runs):
            v.append(("missing", "main", "the %s is not run" % name(runs[len(got)])))
            return v
        for x in inter:
            if x not in rset and x not in outs:
                v.append(("temp", "main", "the intermediate file %s is left behind" % show(x)))
        resp = [b("tmp%d.$$$" % i) for i in range(st.user.get("ntmp", 0))]
        for x in resp:
            if x not in rset and x in created:
                v.append(("temp", "System", "the response file %s is left behind" % show(x)))
        for n, x, l in removed:
            if x in resp:
                continue
            if x in outs and n >= len(runs):
                v.append(("rmout", "main:%d" % l, "the output file %s is deleted" % show(x)))
            elif x not in inter and x not in outs:
                v.append(("rmother", "main:%d" % l, "the file %s is deleted" % show(x)))
        if st.user["fh"]:
            opn = [h[0] for h in st.user["fh"].values() if h[2][0] == "w"]
            if opn:
                v.append(("open", "main", "the output %s is not closed" % opn[0]))
    else:
        op, line, fr = f
        w = "%s:%d" % (fr[-1][0], line)
        if ok == 0 or ok == "ret":
            return v + [("ignored:" + op, w, "a failing %s is ignored: the driver reports success" % op)]
        if not isinstance(ok, int):
            return v + [("status:" + op, w, "no failing exit status after a failing %s (%s)" % (op, ok))]
        if not any(x[0] == "print" and x[1].strip() for x in st.user["io"]):
            v.append(("silent:" + op, w, "no diagnostic after a failing %s" % op))
        n = len(got)
        if op == "system":
            for x in outs_of(runs[:n], inter):
                if x not in rset:
                    v.append(("temp:" + op, w, "the intermediate file %s is left behind after a failure of the %s" % (show(x), name(runs[n - 1]))))
            if out is not None and len(sc.files) == 1 and out.b not in rset:
                v.append(("partial:" + op, w, "the output %s of the failed %s is left behind" % (show(out.b), name(runs[n - 1]))))
        elif created and created[-1] not in rset:
            v.append(("partial:" + op, w, "the incomplete output %s is left behind after a failing %s" % (show(created[-1]), op)))
        else:
            for x in outs_of(runs[:n], inter):
                if x not in rset:
                    v.append(("temp:" + op, w, "the intermediate file %s is left behind after a failing %s" % (show(x), op)))
    return v


def outs_of(runs, inter):
    r = []
    for x in runs:
        o = {"pp": lambda: x[8], "cc": lambda: x[10], "as": lambda: x[3], "ld": lambda: None, "chmod": lambda: None}[x[0]]()
        if o in inter:
            r.append(o)
    return r


def msg(st):
    for x in reversed(st.user["io"]):
        if x[0] == "print" and x[1].strip():
            return x[1].strip()
    return "no message"


# ---------------------------------------------------------------- D01
PPS = {"smlrpp": ([], {}), "gcc": (["-ppg"], {}), "gccenv": ([], {"SMLRPPG": "1"}), "none": (["-nopp"], {}), "noneenv": (["-nopp"], {"SMLRPPG": "1"})}


def mk(key, opts_, files, target=None, ppk="smlrpp", mode="link", out=None, before=True, **kw):
    po, env = PPS[ppk]
    env = dict(env, **(kw.pop("env", None) or {}))
    a = list(opts_) + ([target] if target else []) + po
    if mode in ("c", "ar"):
        a.append("-c")
    if mode == "S":
        a.append("-S")
    if out is not None:
        a += ["-o", out]
    a = a + list(files) if before else list(files) + a
    s = Sc(key, a, target=target, pp={"gccenv": "gcc", "noneenv": "none"}.get(ppk, ppk), mode=mode, out=out, env=env, **kw)
    s.files = list(files)
    return s


def scenarios(thorough):
    F = low("f") + ".c"
    G = low("g") + ".c"
    A = low("a") + ".asm"
    O = low("o") + ".o"
    L = low("l") + ".a"
    I = low("i") + ".i"
    X = W("dir/") + low("x")
    out = []
    tl = [None] + sorted(TARGETS)
    for t in tl:
        for p in (PPS if thorough else ("smlrpp", "gcc", "none")):
            out.append(mk("t:%s:%s" % (t, p), [], [F], t, p))
        for m, o in (("c", None), ("S", None), ("ar", X + ".a"), ("link", X)):
            out.append(mk("m:%s:%s%s" % (t, m, "-o" if o else ""), [], [F], t, "smlrpp", m, o))
    sets = {"asm": [A], "i": [I], "o": [O], "oa": [O, L], "cc": [F, G], "mix": [F, L, A, O, I], "aco": [L, F, O], "up": [low("f") + ".C", low("a") + ".ASM"]}
    for sn in sorted(sets):
        for m, o in (("link", None), ("link", X), ("c", None), ("c", X + ".o"), ("S", None), ("S", X), ("ar", X + ".a")):
            for p in ("smlrpp", "none") if not thorough else PPS:
                if sn in ("o", "oa") and m in ("c", "S"):
                    continue
                out.append(mk("s:%s:%s%s:%s" % (sn, m, "-o" if o else "", p), [], sets[sn], "-doss", p, m, o))
    out.append(mk("after", [], [F, O], "-win", out=X, before=False))
    # compiler switches
    fl = ["-signed-char", "-unsigned-char", "-signed-wchar", "-unsigned-wchar", "-short-wchar", "-long-wchar", "-leading-underscore", "-no-leading-underscore",
          "-winstack", "-Wall", "-nobss"]
    for t in tl if thorough else ("-linux", "-dosh", "-win", "-tiny"):
        for f in fl:
            out.append(mk("f:%s:%s" % (t, f), [f], [F], t, flags=[f]))
    for fs in (("-unsigned-char", "-signed-char"), ("-signed-char", "-unsigned-char"), ("-signed-wchar", "-unsigned-wchar"), ("-unsigned-wchar", "-signed-wchar"),
               ("-short-wchar", "-long-wchar"), ("-long-wchar", "-short-wchar"), ("-long-wchar", "-unsigned-wchar", "-unsigned-char", "-nobss", "-Wall")):
        for t in ("-linux", "-doss"):
            out.append(mk("f:%s:%s" % (t, "+".join(fs)), list(fs), [F], t, flags=fs))
    V = low("v")
    for o in ("-map", "-pesubsys", "-entry", "-origin", "-stack", "-minheap", "-maxheap"):
        out.append(mk("l:" + o, [o, V], [F], "-pe", ld=[(o, V)]))
    for o in ("-norel", "-gui"):
        out.append(mk("l:" + o, [o], [F], "-win", ld=[(o, None)]))
    for t in ("-aout", "-dosp"):
        out.append(mk("stub:" + t, ["-stub", V], [F], t, stub=V))
    for vb in ("-v", "-verbose"):
        out.append(mk("v:" + vb, [vb], [F], "-linux"))
    # macros and include paths
    D1, D2 = W(low("m"), "=", ("n", 1, 48, 57)), low("k")
    P1, P2 = W("/") + low("p"), W("/") + low("q")
    for p in PPS if thorough else ("smlrpp", "gcc", "none"):
        for form in (0, 1):
            def o(k, v):
                return [W(k) + v] if form else [k, v]
            out.append(mk("d:%s:%d" % (p, form), o("-D", D1) + o("-I", P1) + o("-D", D2) + o("-SI", P2) + o("-I", P2), [F], "-linux", p,
                          defs=[D1, D2], incs=[P1, P2], sysinc=[P2]))
    # assembler
    out.append(mk("asm:opt", ["-asm", V], [F], "-linux", asm=V))
    out.append(mk("asm:env", [], [F], "-linux", asm=V, env={"SMLRASM": V}))
    out.append(mk("asm:both", ["-asm", V], [F], "-linux", asm=V, env={"SMLRASM": low("z")}))
    # where headers and libraries are looked for
    E1, E2 = W("/") + low("e"), W("/") + low("h") + "/"
    for t in ("-linux", "-dosp", "-elf"):
        for e in ({}, {"SMLRC": E1}, {"HOME": E2}, {"SMLRC": E2, "HOME": E1}):
            for p in ("smlrpp", "gcc", "none") if thorough else ("smlrpp", "none"):
                for lf in (0, 1, 2):
                    opt = ([], ["-SL", P1], [W("-SL") + P1])[lf]
                    if lf == 2 and t != "-linux":
                        continue
                    out.append(mk("p:%s:%s:%s:%d" % (t, "+".join(sorted(e)), p, lf), opt, [F], t, p, env=e, lib=P1 if lf else None, exist="fork"))
    out.append(mk("p:stub", ["-stub", V], [F], "-dosp", stub=V, exist="fork"))
    # raw formats have no library, whatever came before
    for t in ("-flat16", "-flat32"):
        s = mk("raw:" + t, ["-linux" if t == "-flat32" else "-doss"], [F], t, defs=[])
        s.extra = "_LINUX" if t == "-flat32" else "_DOS"
        s.defs = [W(s.extra)]
        out.append(s)
    # repeated mode switches
    out.append(mk("rep:ppg", ["-ppg"], [F], "-linux", "gcc"))
    out.append(mk("rep:nopp", ["-nopp"], [F], "-linux", "none"))
    for h in ("macos", "windows", "dos"):
        for t in (None, "-linux", "-win", "-dosp"):
            out.append(mk("h:%s:%s" % (h, t), [], [low("f", 1) + ".c"], t, "none", host=h))
    out.append(mk("h:windows:ext", [], [F, O], None, "smlrpp", host="windows", out=X))
    # commands too long for DOS go through response files
    for n in range(36, 52) if thorough else range(40, 48):
        out.append(mk("h:dos:long%d" % n, [], [low("f", n) + ".c"], None, "none", host="dos", out=low("x", 40)))
    out.append(mk("h:dos:longm", [], [low("f", 60) + ".c", low("g", 70) + ".c", O], "-dosp", "none", host="dos", mode="link"))
    return out


_S = None


def sc_by(i, thorough):
    global _S
    if _S is None:
        _S = scenarios(thorough)
    return _S[i]


def d01_one(job):
    i, th = job
    sc = sc_by(i, th)
    try:
        I, fin = run_sc(sc)
    except AnalysisError as e:
        if isfault(e):
            return sc.key, [("memory", "main", "%s: %s" % (sc.key, str(e)[:160]))], 1, 0
        raise
    v = []
    ncmd = 0
    for st in fin:
        ncmd += sum(1 for e in st.user["ev"] if e[0] == "system")
        v += judge(sc, st)
    return sc.key, v, len(fin), ncmd


def pipeline(R):
    R.files = ("smlrcc.c",)
    mod()
    for h in HOSTS:
        mod(h)
    S = scenarios(R.thorough)
    for key, v, n, nc in par.pmap(d01_one, [(i, R.thorough) for i in range(len(S))], 4, stop=lambda r: len(r[1])):
        R.count("command lines")
        R.count("paths", n)
        R.count("tool runs", nc)
        R.sample(key)
        for k, w, m in v[:2]:
            R.violation("pipe:%s|%s" % (key, k), w, m + " [%s]" % key)
    R.need("command lines", 250)
    R.need("tool runs", 700)
    R.rule("Abstract interpretation of the driver's main() over command lines with symbolic file names, paths and values; every command handed to system() is "
           "split by a shell model and its meaning compared with the documented pipeline for the options given.")


# ---------------------------------------------------------------- D02
def fail_scenarios(thorough):
    F = low("f") + ".c"
    G = low("g") + ".c"
    A = low("a") + ".asm"
    O = low("o") + ".o"
    X = W("dir/") + low("x")
    out = []
    for p in PPS if thorough else ("smlrpp", "none"):
        for m, o in (("link", None), ("link", X), ("c", None), ("c", X + ".o"), ("S", None), ("S", X), ("ar", X + ".a")):
            for sn, fs in (("c", [F]), ("cc", [F, G]), ("ca", [F, A, O])):
                for t in ("-linux", "-doss") if thorough else ("-linux" if m == "link" else "-doss",):
                    out.append(mk("x:%s:%s%s:%s:%s" % (p, m, "-o" if o else "", sn, t), [], fs, t, p, m, o))
    for h in ("windows", "dos"):
        out.append(mk("x:%s" % h, [], [low("f", 1) + ".c"], None, "none", host=h))
    return out


def d02_one(job):
    i, th, what = job
    sc = fail_scenarios(th)[i]
    v = []

    def recover(s, e):
        f = s.user.get("fail")
        if not isinstance(f, tuple):
            return False
        v.append(("continues:" + f[0], "%s:%d" % (f[2][-1][0], f[1]), "after a failing %s the driver goes on with undefined data (%s)" % (f[0], str(e)[:80])))
        return True
    env = {k: (W(x) if isinstance(x, str) else x) for k, x in (sc.env or {}).items()}
    I, fin = drv.run(mod(sc.host), ["smlrcc" if unixl(sc.host) else "c:\\sc\\bin\\smlrcc.exe"] + sc.args, env=env, existdef=lambda n: True, fail="armed",
                     failmem=what == "mem", failread=lambda k: k.endswith(".o"), recover=recover)
    pts = 0
    for st in fin:
        f = st.user["fail"]
        if isinstance(f, tuple):
            pts += 1
            if any(fr[0] in ("fatargs",) for fr in f[2]):
                continue
        vv = judge(sc, st)
        if isinstance(f, tuple) and f[0] in ("fread", "fseek") and vv and vv[0][0].startswith("ignored"):
            if sc.mode != "ar" or not archive_bad(sc, st):
                continue
        v += vv
    return sc.key, v, len(fin), pts


def failures(R):
    R.files = ("smlrcc.c",)
    for h in HOSTS:
        mod(h)
    S = fail_scenarios(R.thorough)
    jobs = [(i, R.thorough, w) for i in range(len(S)) for w in ("io", "mem")]
    for key, v, n, pts in par.pmap(d02_one, jobs, 2, stop=lambda r: len(r[1])):
        R.count("command lines")
        R.count("failure points", pts)
        R.count("paths", n)
        R.sample(key)
        for k, w, m in v[:3]:
            R.violation("fail:%s|%s" % (key, k), w, m + " [%s]" % key)
    R.need("failure points", 800)
    R.rule("Abstract interpretation of the driver with each tool run, file operation and allocation failing once: the path stops with a diagnostic and a failing "
           "status, runs no further tool, and removes intermediates and partial output; without failures exactly the intermediates are removed.")
    R.assume.append("Reading an @file of arguments does not fail.")


# ---------------------------------------------------------------- D03
def arb(name, n=1):
    return W((name, n, 1, 255))


def q_scenarios(thorough):
    out = []
    ns = (0, 1, 2, 3) if thorough else (0, 1, 2)
    for n in ns:
        w = arb("w", n) if n else W("")
        for host in ("linux", "windows"):
            out.append(("map", host, w))
    for n in ns[1:]:
        for host in ("linux", "windows"):
            out.append(("file", host, W("z") + arb("w", n)))
            out.append(("out", host, W("z") + arb("w", n)))
            if n < 3:
                out.append(("def", host, W("M=") + arb("w", n)))
                out.append(("inc", host, W("/") + arb("w", n)))
                out.append(("asm", host, W("z") + arb("w", n)))
    return out


def d03_one(job):
    what, host, w = job
    key = "quote:%s:%s:%d" % (what, host, len(w.b))
    F = low("f") + ".c"
    if what == "map":
        sc = mk(key, ["-map", w], [F], "-linux", "none", host=host, ld=[("-map", w)])
    elif what == "file":
        sc = mk(key, [], [w + ".c"], "-linux", "smlrpp", host=host)
    elif what == "out":
        sc = mk(key, [], [F], "-linux", "none", out=w, host=host)
    elif what == "def":
        sc = mk(key, ["-D", w], [F], "-linux", "none", host=host, defs=[w])
    elif what == "inc":
        sc = mk(key, ["-I", w], [F], "-linux", "smlrpp", host=host, incs=[w])
    else:
        sc = mk(key, ["-asm", w], [F], "-linux", "none", host=host, asm=w)
    v = []
    n = 0

    def recover(s, e):
        if isfault(e):
            v.append(("overrun", "main", str(e)[:120]))
            return True
        return False
    env = {k: (W(x) if isinstance(x, str) else x) for k, x in (sc.env or {}).items()}
    I, fin = drv.run(mod(host), ["smlrcc" if unixl(host) else "c:\\sc\\bin\\smlrcc.exe"] + sc.args, env=env, existdef=lambda n: show(n).startswith(("/usr/local/", "c:\\sc")), maxstates=200000, recover=recover)
    for st in fin:
        n += 1
        if not unixl(host) and any(may_special(st, c) for c in w.b if not isc(c)):
            # %, and a double quote in a file name, cannot be passed through the DOS/Windows command processor
            continue
        vv = judge(sc, st)
        if vv:
            v += [(k, l, m + " (unknown bytes: %s)" % witness(st, w)) for k, l, m in vv[:1]]
    return key, v, n, 1


def may_special(st, c):
    for x in '%"':
        if st.decide(T.cmp_("eq", 8, c, ord(x))) == 1:
            return True
    return False


def witness(st, w):
    out = []
    for c in w.b:
        if isc(c):
            out.append(chr(c))
            continue
        for x in list(range(97, 123)) + [y for y in range(1, 256) if not 97 <= y < 123]:
            if st.decide(T.cmp_("eq", 8, c, x)) == 1:
                out.append("\\x%02x" % x if x < 33 or x > 126 else chr(x))
                break
        else:
            out.append("<any>")
    return "".join(out)


def quoting(R):
    R.files = ("smlrcc.c",)
    for h in ("linux", "windows"):
        mod(h)
    for key, v, n, pts in par.pmap(d03_one, q_scenarios(R.thorough), 1):
        R.count("argument positions")
        R.count("paths", n)
        R.sample(key)
        for k, w, m in v[:2]:
            R.violation("%s|%s" % (key, k), w, m)
    R.need("argument positions", 20)
    R.need("paths", 300)
    R.rule("Abstract interpretation of option quoting over arguments of unknown bytes (every value 1-255): the command's words, as split by a model of sh "
           "(or of the Microsoft C run time), must be exactly the original arguments.")


# ---------------------------------------------------------------- D04
def archive_bytes(members):
    """members: [(name bytes, [content bytes])] -> list of alternatives per byte"""
    out = list(b"!<arch>\n")
    hdrs = []
    for nm, data in members:
        ln = len(nm)
        long_ = ln > 15
        size = len(data) + (ln if long_ else 0)
        hdrs.append((len(out), nm, size, long_))
        out += [None] * 60
        if long_:
            out += list(nm)
        out += list(data)
        if size & 1:
            out.append(10)
    return out, hdrs


def image_of(st, name):
    ev = st.user["out"].get(name)
    if ev is None:
        return None
    out = []
    for pos, n, kind_, data, *_ in ev:
        if pos != len(out):
            return None
        out += list(data)
    return out


def archive_bad(sc, st, sizes=None):
    """list of complaints about the archive file"""
    if any(h[2][0] == "w" for h in st.user["fh"].values()):
        return ["the archive is not closed"]
    got = image_of(st, show(sc.out.b))
    if got is None:
        return ["no archive is written"]
    _, _, _, ars, out = expect(sc, (None, None, None))
    mem = []
    for f in ars:
        n = f.b
        i = len(n)
        while i > 0 and n[i - 1] not in (47, 92) and not (not unixl(sc.host) and i == 2 and n[1] == 58):
            i -= 1
        key = show(n)
        sz = (sizes or {}).get(key, 3)
        mem.append((n[i:], [T.sym("%s@%d" % (key, o), 8) for o in range(sz)]))
    want, hdrs = archive_bytes(mem)
    if len(got) != len(want):
        return ["the archive is %d bytes long instead of %d" % (len(got), len(want))]
    for i, x in enumerate(want):
        if x is not None and got[i] is not x and got[i] != x:
            return ["byte %d of the archive is %s instead of %s" % (i, show((got[i],)), show((x,)))]
    for off, nm, size, long_ in hdrs:
        h = got[off:off + 60]

        def field(a, n):
            return show(tuple(h[a:a + n])).rstrip(" ")
        nf = h[0:16]
        if long_:
            okn = field(0, 16) == "#1/%d" % len(nm)
        else:
            okn = tuple(nf[:len(nm)]) == tuple(nm) and nf[len(nm)] == 47 and all(c == 32 for c in nf[len(nm) + 1:])
        if not okn:
            return ["member name field %r does not name %s" % (show(tuple(nf)), show(nm))]
        if field(48, 10) != "%d" % size:
            return ["member size field %r, should be %d" % (field(48, 10), size)]
        if h[58:60] != [0x60, 10]:
            return ["member header of %s is not terminated properly" % show(nm)]
        for a, n, base in ((16, 12, 10), (28, 6, 10), (34, 6, 10), (40, 8, 8)):
            try:
                int(field(a, n), base)
            except ValueError:
                return ["numeric header field %r of %s" % (field(a, n), show(nm))]
    return []


def ar_scenarios(thorough):
    out = []
    sizes = (0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 100, 1022, 1023, 1024, 1025, 2047, 2048, 2049) if thorough else (0, 1, 2, 3, 5, 8, 1023, 1024, 1025, 2048)
    for n in sizes:
        out.append(("size%d" % n, [low("o") + ".o"], {0: n}, "linux"))
    for n in (1, 2, 12, 13, 14, 29) if not thorough else range(1, 30):
        for pre in ("", "d/", "d\\", "d/e\\", "d\\e/", "./"):
            for sz in (1, 2):
                out.append(("name%d:%s:%d" % (n, pre, sz), [W(pre) + low("o", n) + ".o"], {0: sz}, "linux"))
    for h in ("windows", "dos"):
        for pre in ("", "c:", "c:\\", "d/e\\"):
            out.append(("host:%s:%s" % (h, pre), [W(pre) + low("o", 3) + ".o"], {0: 2}, h))
    O, P, Q = low("o") + ".o", low("p", 14) + ".o", W("x/") + low("q") + ".o"
    for i, ord_ in enumerate(itertools.permutations([O, P, Q])):
        out.append(("multi%d" % i, list(ord_), {0: 1 + i, 1: 4, 2: 1025 - i}, "linux"))
    out.append(("mixed", [O, low("f") + ".c", low("l") + ".a", Q], {0: 3, 3: 2}, "linux"))
    return out


def d04_one(job):
    key, files, sz, host = job
    sc = mk("ar:" + key, [], files, "-linux", "none", "ar", low("x") + ".a", host=host)
    sizes = {show(files[i].b): n for i, n in sz.items()}
    v = []

    def recover(s, e):
        if isfault(e):
            v.append(("overrun", "Archive", str(e)[:120]))
            return True
        return False
    I, fin = drv.run(mod(host), ["smlrcc" if unixl(host) else "c:\\sc\\bin\\smlrcc.exe"] + sc.args, existdef=lambda n: True, sizes=sizes, recover=recover,
                     maxsteps=20000000)
    for st in fin:
        v += judge(sc, st)
        for m in archive_bad(sc, st, sizes)[:1]:
            v.append(("content", "Archive", m))
    return sc.key, v, len(fin)


def archives(R):
    R.files = ("smlrcc.c",)
    for h in ("linux", "windows", "dos"):
        mod(h)
    for key, v, n in par.pmap(d04_one, ar_scenarios(R.thorough), 1):
        R.count("archives")
        R.count("paths", n)
        R.sample(key)
        for k, w, m in v[:2]:
            R.violation("%s|%s" % (key, k), w, m + " [%s]" % key)
    R.need("archives", 60)
    R.rule("Abstract interpretation of archive creation over members with symbolic contents and names: the written bytes are re-read by an independent "
           "ar-format model (names, sizes, long-name members, padding, order).")
