"""The C library: loading its functions for a target and analysing calls of them."""
import os, re, subprocess, hashlib, json
import build, terms as T
from terms import isc, mask, Term
from sai import (Module, State, Interp, AnalysisError, P, F, Forks, isfault, i2p)
import sai

LIBSRC = os.path.join(build.SRC, "srclib")
INC = os.path.join(build.SRC, "include")

COMMON = ["-nostdinc", "-I", INC, "-D__SMALLER_C__", "-D__SMALLER_PP__", "-D__SMALLER_C_SCHAR__", "-fno-strict-aliasing"]
T32 = ["-m32", "-D__SMALLER_C_32__", "-D__SMALLER_C_SWCHAR__", "-D__SMALLER_C_WCHAR32__"]
CONFIGS = {
    "linux": T32 + ["-D_LINUX"],
    "windows": T32 + ["-D_WINDOWS"],
    "macos": T32 + ["-D_MACOS"],
    "dpmi": T32 + ["-D_DOS", "-D_DPMI"],
    "huge": T32 + ["-D_DOS", "-D__HUGE__"],
    "unreal": T32 + ["-D_DOS", "-D__UNREAL__"],
    "small": ["-target", "msp430", "-D__SMALLER_C_16__", "-D_DOS", "-D__SMALLER_C_SWCHAR__", "-D__SMALLER_C_WCHAR16__"],
}
LISTS = {"linux": "lcl.txt", "windows": "lcw.txt", "macos": "lcm.txt", "dpmi": "lcdp.txt", "huge": "lcdh.txt", "unreal": "lcdu.txt", "small": "lcds.txt"}

_mods = {}


def load(config, files, extra=()):
    """library sources linked into one module"""
    key = (config, tuple(files), tuple(extra))
    if key in _mods:
        return _mods[key]
    d = build.tmpdir()
    tag = hashlib.md5(repr(key).encode()).hexdigest()[:8]
    bcs = []
    procs = []
    for f in files:
        src = f if os.path.isabs(f) else os.path.join(LIBSRC, f)
        if not os.path.exists(src):
            raise AnalysisError("library source %s is missing (anchor vanished)" % f)
        bc = os.path.join(d, tag + os.path.basename(f) + ".bc")
        flags = [x for x in build.BASE if x != "-D__NO_CTYPE"] + ["-Wno-everything"]
        procs.append((f, bc, subprocess.Popen([build.CLANG] + flags + CONFIGS[config] + COMMON + list(extra) + [src, "-o", bc],
                                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
        if len(procs) >= 16:
            _drain(procs, bcs)
    _drain(procs, bcs)
    l = bcs[0]
    if len(bcs) > 1:
        l = os.path.join(d, tag + ".link.bc")
        exe = "/usr/bin/llvm-link-18"
        r = subprocess.run([exe if os.path.exists(exe) else build.LLVM + "/bin/llvm-link"] + bcs + ["-o", l], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("llvm-link failed: " + r.stderr[-2000:])
    M = Module(json.loads(build.dump(l)))
    M.unit = "clib-" + config
    M.libc = False
    M.config = config
    _mods[key] = M
    return M


def _drain(procs, bcs):
    while procs:
        f, bc, p = procs.pop(0)
        o, e = p.communicate()
        if p.returncode:
            raise AnalysisError("clang failed on %s: %s" % (f, e[-1500:]))
        bcs.append(bc)


class Infeasible(Exception):
    """raised by a specification that finds the facts of its state contradictory"""


class Split(Exception):
    def __init__(self, c):
        self.c = c


def explore(st, fn, limit=4096):
    """fn(ask) evaluated for every way the facts of st leave open; [(state, result)]"""
    work = [st]
    out = []
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > limit:
            raise AnalysisError("too many cases in a specification")

        def ask(c, s=s):
            if isc(c):
                return c
            r = s.decide(c)
            if r is None:
                raise Split(c)
            return r
        try:
            out.append((s, fn(ask)))
        except Infeasible:
            continue
        except Split as e:
            for v in (1, 0):
                s2 = s.fork()
                for o in s.mem.values():
                    o.owner = None
                if s2.assume(e.c, v):
                    work.append(s2)
    return out


def norm(st, v):
    """v under the equalities between unknowns the path has established"""
    if isc(v) or isinstance(v, (P, F)):
        return v
    for c, t in st.facts.items():
        if t == 1 and isinstance(c, Term) and c.op == "cmp" and c.args[0] == "eq" and not isc(c.args[1]) and not isc(c.args[2]):
            v = T.subst(v, {c.args[1]: c.args[2]})
            if isc(v):
                break
    return v


def interp(M, hooks=None, **kw):
    I = Interp(M, None, **kw)
    I.hooks = {k: v for k, v in I.hooks.items() if M.func(k) is None}
    I.hooks["<asm>"] = h_asm
    if hooks:
        I.hooks.update(hooks)
    return I


def byt(n):
    return T.sym(n, 8)


def nz(st, b):
    """assume a byte is not the terminator"""
    st.assume(T.cmp_("eq", 8, b, 0), 0)


class Buf:
    """an object of bytes: known contents, unknown contents, the rest named"""

    def __init__(self, st, name, data, size=None):
        self.name = name
        self.size = len(data) if size is None else size
        self.p = st.newobj(name, self.size)
        self.init = list(data) + [byt("%s.%d" % (name, i)) for i in range(len(data), self.size)]
        o = st.wobj(self.p.obj)
        for i, b in enumerate(self.init):
            o.data[i] = (1, b)

    def at(self, off):
        return P(self.p.obj, off)

    def bytes(self, st):
        return [st.load(P(self.p.obj, i), 1) for i in range(self.size)]


def string(st, name, n):
    """n unknown non-zero bytes and a terminator"""
    bs = [byt("%s%d" % (name, i)) for i in range(n)]
    for b in bs:
        nz(st, b)
    return bs + [0]


# ---------------------------------------------------------------- inline assembly (16-bit)
R16 = ("ax", "bx", "cx", "dx", "si", "di")


class Asm:
    """one path of a block of 16-bit string code"""

    def __init__(self, lines):
        self.lines = lines
        self.labels = {}
        self.code = []
        for l in lines:
            m = re.match(r"^\s*(\.?\w+):\s*(.*)$", l)
            if m:
                self.labels[m.group(1)] = len(self.code)
                l = m.group(2)
            l = l.split(";")[0].strip()
            if l:
                self.code.append(l)


class Mach:
    def __init__(self, st, args):
        self.st = st
        self.args = args
        self.r = {k: T.sym("asm.%s" % k, 16) for k in R16}
        self.zf = self.cf = self.df = None
        self.pc = 0

    def copy(self, st):
        m = Mach.__new__(Mach)
        m.st, m.args, m.r = st, self.args, dict(self.r)
        m.zf, m.cf, m.df, m.pc = self.zf, self.cf, self.df, self.pc
        return m

    def get(self, o):
        """(value, width)"""
        o = o.strip()
        if o in self.r:
            return self.r[o], 16
        if o in ("al", "bl", "cl", "dl"):
            v = self.r[o[0] + "x"]
            return T.ext(16, self.num(v), 0, 8), 8
        if o in ("ah", "bh", "ch", "dh"):
            return T.ext(16, self.num(self.r[o[0] + "x"]), 8, 8), 8
        m = re.match(r"^(0x[0-9a-fA-F]+|-?\d+)$", o)
        if m:
            return int(o, 0), 0
        m = re.match(r"^(?:(byte|word)\s*)?\[(.*)\]$", o)
        if m:
            return self.mem(m.group(2), {"byte": 1, "word": 2}.get(m.group(1))), -1
        raise AnalysisError("operand %s of inline assembly" % o)

    def num(self, v):
        return sai.p2i(self.st.M, v, 16) if isinstance(v, (P, F)) else v

    def ea(self, e):
        m = re.match(r"^\s*(\w+)\s*(?:([+-])\s*(\w+))?\s*$", e)
        if not m:
            raise AnalysisError("address [%s] of inline assembly" % e)
        k = int(m.group(3), 0) * (-1 if m.group(2) == "-" else 1) if m.group(3) else 0
        return m.group(1), k

    def mem(self, e, n=None):
        b, k = self.ea(e)
        if b == "bp":
            i, rem = divmod(k - 4, 2)
            if rem or not 0 <= i < len(self.args):
                raise AnalysisError("out of bounds parameter [%s]" % e)
            return ("arg", i)
        return ("mem", sai.padd(self.st.M, self.r[b], k & 0xffff))

    def val(self, o, w):
        v, k = self.get(o)
        if k == -1:
            if v[0] == "arg":
                a = self.args[v[1]]
                return a if w == 16 else T.ext(16, self.num(a), 0, 8)
            return self.st.load(v[1], w // 8)
        return v & mask(w) if k == 0 else v

    def put(self, o, v, w):
        o = o.strip()
        if o in self.r:
            self.r[o] = v
        elif o in ("al", "bl", "cl", "dl"):
            q = o[0] + "x"
            self.r[q] = T.cat([(T.ext(16, self.num(self.r[q]), 8, 8), 8), (v, 8)])
        elif o in ("ah", "bh", "ch", "dh"):
            q = o[0] + "x"
            self.r[q] = T.cat([(v, 8), (T.ext(16, self.num(self.r[q]), 0, 8), 8)])
        else:
            m, k = self.get(o)
            if k != -1 or m[0] != "mem":
                raise AnalysisError("destination %s of inline assembly" % o)
            self.st.store(m[1], w // 8, v)

    def width(self, *ops):
        for o in ops:
            o = o.strip()
            if o in R16:
                return 16
            if o in ("al", "bl", "cl", "dl", "ah", "bh", "ch", "dh") or o.startswith("byte"):
                return 8
            if o.startswith("word"):
                return 16
        raise AnalysisError("operand size of inline assembly")

    def step_ptr(self, q, n):
        if self.df not in (0, 1):
            raise AnalysisError("string instruction of inline assembly without a direction")
        self.r[q] = sai.padd(self.st.M, self.r[q], (n if not self.df else -n) & 0xffff)


def run_asm(st, args, lines):
    """all paths: [(state, machine)]"""
    A = Asm(lines)
    work = [Mach(st, args)]
    done = []
    n = 0
    while work:
        m = work.pop()
        while True:
            n += 1
            if n > 20000:
                raise AnalysisError("step budget exceeded in inline assembly")
            if m.pc >= len(A.code):
                done.append((m.st, m))
                break
            nxt = _istep(m, A, A.code[m.pc])
            if nxt is None:
                continue
            work += nxt
            break
    return done


def branch(m, c):
    """[(machine, truth)]"""
    if c is None:
        raise AnalysisError("condition of inline assembly is not set")
    r = m.st.decide(c) if not isc(c) else c
    if r is not None:
        return [(m, r)]
    out = []
    for v in (1, 0):
        s = m.st.fork()
        for o in m.st.mem.values():
            o.owner = None
        if s.assume(c, v):
            out.append((m.copy(s), v))
    return out


def _istep(m, A, line):
    M = m.st.M
    t = line.split(None, 1)
    op = t[0].lower()
    rep = None
    if op in ("rep", "repe", "repz", "repne", "repnz"):
        rep = op
        t = t[1].split(None, 1)
        op = t[0].lower()
    ops = [x.strip() for x in t[1].split(",")] if len(t) > 1 else []
    if op in ("scasb", "cmpsb", "movsb", "movsw", "stosb", "stosw", "lodsb", "lodsw"):
        w = 2 if op[-1] == "w" else 1
        if rep:
            cx = m.r["cx"]
            if isinstance(cx, P):
                raise AnalysisError("count of inline assembly")
            out = []
            for m2, z in branch(m, T.cmp_("eq", 16, cx, 0)):
                if z:
                    m2.pc += 1
                    out.append(m2)
                    continue
                m2.r["cx"] = T.sub(16, m2.r["cx"], 1)
                _strop(m2, op, w)
                if op in ("scasb", "cmpsb"):
                    want = rep in ("repe", "repz", "rep")
                    for m3, e in branch(m2, m2.zf):
                        if bool(e) != want:
                            m3.pc += 1
                            m3.zf = e
                        out.append(m3)
                else:
                    out.append(m2)
            if len(out) == 1 and out[0] is m:
                return None
            return out
        _strop(m, op, w)
        m.pc += 1
        return None
    m.pc += 1
    if op in ("cld", "std"):
        m.df = int(op == "std")
    elif op == "mov":
        w = m.width(*ops)
        m.put(ops[0], m.val(ops[1], w), w)
    elif op == "movzx":
        m.put(ops[0], T.zext(8, m.val(ops[1], 8), 16), 16)
    elif op == "lea":
        k, v = m.mem(ops[1].strip()[1:-1])
        if k != "mem":
            raise AnalysisError("lea of a parameter in inline assembly")
        m.put(ops[0], v, 16)
    elif op in ("not", "neg", "inc", "dec"):
        w = m.width(ops[0])
        v = m.val(ops[0], w)
        if op in ("inc", "dec"):
            r = sai.padd(M, v, 1 if op == "inc" else 0xffff) if isinstance(v, P) else T.add(w, v, 1 if op == "inc" else mask(w))
        else:
            v = m.num(v)
            r = T.not_(w, v) if op == "not" else T.neg(w, v)
        m.put(ops[0], r, w)
        if op != "not":
            m.zf = 0 if isinstance(r, P) else T.cmp_("eq", w, r, 0)
            if op == "neg":
                m.cf = T.lnot(m.zf)
    elif op in ("xor", "or", "and", "test", "add", "sub", "cmp"):
        w = m.width(*ops)
        a, b = m.val(ops[0], w), m.val(ops[1], w)
        if op == "xor" and ops[0] == ops[1]:
            r = 0
        elif op == "add":
            if isinstance(a, P):
                r = sai.padd(M, a, m.num(b))
            elif isinstance(b, P):
                r = sai.padd(M, b, m.num(a))
            else:
                r = T.add(w, a, b)
        elif op in ("sub", "cmp"):
            if isinstance(a, P) and isinstance(b, P) and a.obj == b.obj:
                r = T.sub(w, a.off, b.off)
                m.cf = T.cmp_("ult", w, a.off, b.off)
            elif isinstance(a, P):
                r = sai.padd(M, a, T.neg(16, m.num(b)))
            else:
                r = T.sub(w, m.num(a), m.num(b))
                m.cf = T.cmp_("ult", w, m.num(a), m.num(b))
        else:
            if isinstance(a, P) and ops[0] == ops[1] and op != "xor":
                r = a
            else:
                a, b = m.num(a), m.num(b)
                r = {"xor": T.xor, "or": T.or_, "and": T.and_, "test": T.and_}[op](w, a, b)
            m.cf = 0
        if op in ("sub", "cmp") and not isinstance(a, P) and not isinstance(b, P):
            m.zf = T.cmp_("eq", w, a, b)
        else:
            m.zf = 0 if isinstance(r, P) else T.cmp_("eq", w, r, 0)
        if op not in ("cmp", "test"):
            m.put(ops[0], r, w)
    elif op in ("shr", "shl", "sar", "rcl", "rcr"):
        w = m.width(ops[0])
        v = m.num(m.val(ops[0], w))
        if ops[1] != "1":
            raise AnalysisError("shift count of inline assembly")
        hi, lo = T.ext(w, v, w - 1, 1), T.ext(w, v, 0, 1)
        b = lambda c: c if isc(c) else T.ite(1, c, 1, 0) if c.w != 1 else c
        if op == "shr":
            r, m.cf = T.lshr(w, v, 1), lo
        elif op == "sar":
            r, m.cf = T.ashr(w, v, 1), lo
        elif op == "shl":
            r, m.cf = T.shl(w, v, 1), hi
        elif op == "rcl":
            r, m.cf = T.cat([(T.ext(w, v, 0, w - 1), w - 1), (b(m.cf), 1)]), hi
        else:
            r, m.cf = T.cat([(b(m.cf), 1), (T.ext(w, v, 1, w - 1), w - 1)]), lo
        if op in ("shr", "sar", "shl"):
            m.zf = T.cmp_("eq", w, r, 0)
        m.put(ops[0], r, w)
    elif op == "xchg":
        w = m.width(*ops)
        a, b = m.val(ops[0], w), m.val(ops[1], w)
        m.put(ops[0], b, w)
        m.put(ops[1], a, w)
    elif op == "cbw":
        m.r["ax"] = T.sext(8, T.ext(16, m.num(m.r["ax"]), 0, 8), 16)
    elif op in ("jmp", "je", "jz", "jne", "jnz", "jc", "jb", "jnc", "jae", "jcxz"):
        tgt = ops[0].replace("short ", "").strip()
        if tgt not in A.labels:
            raise AnalysisError("label %s of inline assembly" % tgt)
        tgt = A.labels[tgt]
        if op == "jmp":
            m.pc = tgt
            return None
        c, want = {"je": (m.zf, 1), "jz": (m.zf, 1), "jne": (m.zf, 0), "jnz": (m.zf, 0), "jc": (m.cf, 1), "jb": (m.cf, 1),
                   "jnc": (m.cf, 0), "jae": (m.cf, 0), "jcxz": (0 if isinstance(m.r["cx"], P) else T.cmp_("eq", 16, m.r["cx"], 0), 1)}[op]
        out = branch(m, c)
        for m2, v in out:
            if v == want:
                m2.pc = tgt
        if len(out) == 1:
            return None if out[0][0] is m else [out[0][0]]
        return [x for x, _ in out]
    else:
        raise AnalysisError("instruction %s of inline assembly" % line)
    return None


def _strop(m, op, w):
    st = m.st
    if op[:4] == "scas":
        m.zf = T.cmp_("eq", 8, T.ext(16, m.num(m.r["ax"]), 0, 8), st.load(m.r["di"], 1))
        m.step_ptr("di", 1)
    elif op[:4] == "cmps":
        m.zf = T.cmp_("eq", 8, st.load(m.r["si"], 1), st.load(m.r["di"], 1))
        m.step_ptr("si", 1)
        m.step_ptr("di", 1)
    elif op[:4] == "movs":
        st.store(m.r["di"], w, st.load(m.r["si"], w))
        m.step_ptr("si", w)
        m.step_ptr("di", w)
    elif op[:4] == "stos":
        a = m.num(m.r["ax"])
        st.store(m.r["di"], w, a if w == 2 else T.ext(16, a, 0, 8))
        m.step_ptr("di", w)
    else:
        v = st.load(m.r["si"], w)
        if w == 2:
            m.r["ax"] = v
        else:
            m.put("al", v, 8)
        m.step_ptr("si", w)


def h_asm(I, st, a, line):
    """consecutive asm statements of a function are analysed as one block"""
    fr = st.frames[-1]
    if I.M.config != "small":
        raise AnalysisError("inline assembly in %s" % fr.fn.name)
    ins = fr.fn.blocks[fr.bb]
    lines = []
    k = fr.ip
    seen = 0
    while k < len(ins):
        op, ident, ty, ln, rest = ins[k]
        if op == "call" and rest[0][0] == "asm":
            lines += re.split(r"\n|\\0A", rest[0][1])
            last = k
        elif not (op == "call" and rest[0][0] == K and isinstance(rest[0][1], F) and rest[0][1].name.startswith("llvm.dbg")):
            break
        k += 1
    args = [fr.regs[-1 - i] for i in range(len(fr.fn.params))]
    args = [T.sext(x.w, x, 16) if isinstance(x, Term) and x.w < 16 else x for x in args]
    out = []
    for s, m in run_asm(st, args, lines):
        f = s.frames[-1]
        f.acc = m.r["ax"]
        f.ip = last
        out.append((s, 0))
    for o in st.mem.values():
        o.owner = None
    return Forks(out)


K = sai.K


_pp = {}


def variants(files, configs=None):
    """configurations whose preprocessed sources differ: [(representative, [all])]"""
    configs = list(configs or CONFIGS)
    jobs = []
    for c in configs:
        fl = [os.path.join(LIBSRC, f) for f in files]
        jobs.append((c, subprocess.Popen([build.CLANG, "-E", "-P", "-w"] + CONFIGS[c] + COMMON + fl,
                                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    groups = {}
    for c, p in jobs:
        o, e = p.communicate()
        if p.returncode:
            raise AnalysisError("preprocessing failed: %s" % e[-800:])
        key = ("16" if c == "small" else "32", hashlib.md5(o.encode()).hexdigest())
        groups.setdefault(key, []).append(c)
    return [(g[0], g) for g in groups.values()]


def where(I, st):
    """innermost position of a stopped state"""
    for f in reversed(st.frames):
        fn = f.fn
        try:
            ln = fn.blocks[f.bb][min(f.ip, len(fn.blocks[f.bb]) - 1)][3]
        except Exception:
            ln = fn.line
        return "%s:%s (%s)" % (rel(fn.file), ln or fn.line, fn.name)
    return ""


def rel(p):
    p = os.path.normpath(p or "")
    for r in (build.REPO, "/repo"):
        if p.startswith(r + "/"):
            return p[len(r) + 1:]
    return p


def whereis(M, name):
    f = M.func(name)
    if f is None:
        raise AnalysisError("function %s is not defined (anchor vanished)" % name)
    return "%s:%d (%s)" % (rel(f.file), f.line, name)
