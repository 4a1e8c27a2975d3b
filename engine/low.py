"""Low-level x86 steps with an explicit stack pointer: run-time helper routines,
interrupt entry/exit sequences and assembly library routines.

Registers hold terms; the stack is a byte map addressed relative to the
initial stack pointer when the distance is a constant; other memory is a list
of symbolic accesses."""
import re
import terms as T
from terms import isc, mask, sgn
from x86 import Bad, R32, R16

R32 = ["eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi"]
R16M = {"ax": "eax", "cx": "ecx", "dx": "edx", "bx": "ebx", "sp": "esp", "bp": "ebp", "si": "esi", "di": "edi"}
R8 = {"al": ("eax", 0), "cl": ("ecx", 0), "dl": ("edx", 0), "bl": ("ebx", 0), "ah": ("eax", 8), "ch": ("ecx", 8), "dh": ("edx", 8), "bh": ("ebx", 8)}
SEGS = ("ds", "es", "fs", "gs", "ss", "cs")


class Low:
    def __init__(self, bits, flat=None, L=None, index=None):
        """flat: 'near' (ds=es=ss, offsets compare directly), 'seg' (linear addresses), None for bits==32"""
        self.bits = bits
        self.flat = flat or ("near" if bits == 32 else "seg")
        self.regs = {r: T.sym(r + "0", 32) for r in R32}
        self.segs = {s: T.sym(s + "0", 16) for s in SEGS}
        if self.flat == "near":
            self.segs["es"] = self.segs["ss"] = self.segs["ds"]
        self.stk = {}            # byte offset from the initial stack pointer -> 8-bit term
        self.sp0 = self.regs["esp"] if bits == 32 else T.sym("sp0", 16)
        if bits == 16:
            self.regs["esp"] = T.cat([(T.sym("espx", 16), 16), (self.sp0, 16)])
        self.events = []         # ("store", lin, n, v) ("load", lin, n, term) ("copy", dst, src, n) ("int", k, regs) ("call", target)
        self.ver = 0
        self.flags = None
        self.df = 0
        self.L, self.index = L, index or {}
        self.pc = 0
        self.prefix = []
        self.done = None
        self.line = ""
        self.consts = {}
        self.lowsp = 0           # lowest constant stack offset reached
        self.splits = []         # (physical address, low 4 bits, segment) made by ror 4

    def fork(self):
        m = self.__class__.__new__(self.__class__)
        m.__dict__.update(self.__dict__)
        m.regs, m.segs, m.stk = dict(self.regs), dict(self.segs), dict(self.stk)
        m.events = list(self.events)
        m.prefix = []
        return m

    # ---- registers
    def rget(self, r):
        if r in self.regs:
            return self.regs[r], 32
        if r in R16M:
            return T.ext(32, self.regs[R16M[r]], 0, 16), 16
        if r in R8:
            q, lo = R8[r]
            return T.ext(32, self.regs[q], lo, 8), 8
        if r in self.segs:
            return self.segs[r], 16
        return None

    def rset(self, r, v):
        if r in self.regs:
            self.regs[r] = v
        elif r in R16M:
            q = R16M[r]
            self.regs[q] = T.cat([(T.ext(32, self.regs[q], 16, 16), 16), (v, 16)])
        elif r in R8:
            q, lo = R8[r]
            o = self.regs[q]
            if lo == 0:
                self.regs[q] = T.cat([(T.ext(32, o, 8, 24), 24), (v, 8)])
            else:
                self.regs[q] = T.cat([(T.ext(32, o, 16, 16), 16), (v, 8), (T.ext(32, o, 0, 8), 8)])
        elif r in self.segs:
            self.segs[r] = v
        else:
            raise Bad("register %s" % r)

    def num(self, s):
        s = s.strip()
        tot = 0
        for m in re.finditer(r"([+-]?)\s*((?:0x[0-9a-fA-F]+|\d+|'.')(?:\s*\*\s*\d+)*)\s*", s):
            f = 1
            for x in m.group(2).split("*"):
                x = x.strip()
                f *= ord(x[1]) if x[0] == "'" else int(x, 0)
            tot += -f if m.group(1) == "-" else f
        if re.fullmatch(r"(\s*[+-]?\s*(?:0x[0-9a-fA-F]+|\d+|'.')(?:\s*\*\s*\d+)*\s*)+", s):
            return tot
        return None

    # ---- addresses
    def ea(self, s):
        """text in brackets -> (offset term, address width, segment name)"""
        seg = None
        m = re.match(r"(\w\w)\s*:\s*", s)
        if m:
            seg, s = m.group(1), s[m.end():]
        parts = re.findall(r"([+-]?)\s*([^+-]+)", s)
        w = None
        tot = 0
        regs = []
        for sg, p in parts:
            p = p.strip()
            mm = re.fullmatch(r"(\w+)\s*\*\s*(\d)", p)
            if mm and mm.group(1) in self.regs:
                regs.append((mm.group(1), int(mm.group(2)), sg))
            elif p in self.regs or p in R16M:
                regs.append((p, 1, sg))
            else:
                regs.append((p, None, sg))
        ws = {32 if r in self.regs else 16 for r, k, g in regs if k}
        if len(ws) > 1:
            raise Bad("mixed address registers: %s" % self.line)
        w = ws.pop() if ws else self.bits
        for r, k, sg in regs:
            if k is None:
                v = self.num(r)
                if v is None:
                    v = self.label(r, w)
                else:
                    v &= mask(w)
            else:
                v = T.mulc(w, self.rget(r)[0], k)
                if r in ("bp", "ebp", "esp", "sp") and k == 1 and seg is None:
                    seg = "ss"
            tot = T.add(w, tot, v if sg != "-" else T.neg(w, v))
        return tot, w, seg or "ds"

    def label(self, name, w):
        if not re.fullmatch(r"[\w.$@]+", name):
            raise Bad("operand %r" % name)
        return T.trunc(32, T.sym("&" + name, 32), w)

    def spoff(self, off, w, seg):
        """constant distance from the initial stack pointer, or None"""
        if self.bits == 32:
            d = T.sub(32, off, self.sp0)
            return sgn(d, 32) if isc(d) else None
        if seg == "ss" or self.segs[seg] is self.segs["ss"]:
            d = T.sub(16, T.trunc(w, off, 16), self.sp0)
            return sgn(d, 16) if isc(d) else None
        d = T.sub(32, self.real20(self.linear(off, w, seg)), self.stklin())
        return sgn(d, 32) if isc(d) else None

    def stklin(self):
        return T.add(32, T.shl(32, T.zext(16, self.segs["ss"], 32), 4), T.zext(16, self.sp0, 32))

    def real20(self, v):
        """addresses stay below 1 MB: the low 20 bits of a linear address are the address"""
        if not isc(v) and v.op == "cat" and len(v.args) == 2 and v.args[0] == (0, 12):
            x = v.args[1][0]
            if not isc(x) and x.op == "ext" and x.args[1] == 0 and x.w == 20:
                return self.split_sp(x.args[0])
        return self.split_sp(v)

    def split_sp(self, v):
        """zext(sp0 + k) = zext(sp0) + k: the stack does not wrap"""
        if isc(v):
            return v
        m = {}
        for t in subterms(v):
            if t.op == "cat" and t.w == 32 and len(t.args) == 2 and t.args[0] == (0, 16):
                x = t.args[1][0]
                if not isc(x) and x.op == "lin":
                    d = T.sub(16, x, self.sp0)
                    if isc(d):
                        m[t] = T.add(32, T.zext(16, self.sp0, 32), sgn(d, 16) & mask(32))
        return T.subst(v, m) if m else v

    def linear(self, off, w, seg):
        if self.flat == "near":
            return off
        s = self.segs[seg]
        for v, lo, hi in self.splits:
            c = T.sub(16, s, hi)
            d = T.sub(w, off, T.zext(4, lo, w))
            if isc(c) and isc(d):
                # segment:offset made from a physical address below 1 MB
                return T.add(32, v, ((c << 4) + sgn(d, w)) & mask(32))
        o32 = T.zext(w, off, 32) if w < 32 else off
        if isc(s) and s == 0:
            return o32
        return T.add(32, T.shl(32, T.zext(16, s, 32), 4), o32)

    def load(self, off, w, seg, n):
        k = self.spoff(off, w, seg)
        if k is not None:
            bs = []
            for i in range(n):
                if k + i not in self.stk:
                    self.stk[k + i] = T.fn("stk", 8, (k + i) & mask(32))
                bs.append((self.stk[k + i], 8))
            return T.cat(list(reversed(bs)))
        lin = self.linear(off, w, seg)
        for e in reversed(self.events):
            if e[0] in ("copy", "int", "call"):
                break
            if e[0] == "store":
                d = T.sub(32 if self.flat != "near" or self.bits == 32 else 16, lin, e[1]) if isc(lin) or isc(e[1]) or lin.w == e[1].w else 1
                if isc(d) and d == 0 and e[2] == n:
                    return e[3]
        v = T.fn("ld%d" % n, 8 * n, lin, self.ver)
        self.events.append(("load", lin, n, v))
        return v

    def store(self, off, w, seg, n, v):
        k = self.spoff(off, w, seg)
        if k is not None:
            for i in range(n):
                self.stk[k + i] = T.ext(8 * n, v, 8 * i, 8)
            return
        self.events.append(("store", self.linear(off, w, seg), n, v))
        self.ver += 1

    def push(self, v, w):
        sw = 32 if self.bits == 32 else 16
        sp = T.sub(sw, T.trunc(32, self.regs["esp"], sw), w // 8)
        self.rset("esp" if sw == 32 else "sp", sp)
        self.store(sp, sw, "ss", w // 8, v)

    def pop(self, w):
        sw = 32 if self.bits == 32 else 16
        sp = T.trunc(32, self.regs["esp"], sw)
        v = self.load(sp, sw, "ss", w // 8)
        self.rset("esp" if sw == 32 else "sp", T.add(sw, sp, w // 8))
        return v

    def spdelta(self):
        sw = 32 if self.bits == 32 else 16
        return T.sub(sw, T.trunc(32, self.regs["esp"], sw), self.sp0)

    # ---- operands
    def operand(self, s):
        s = s.strip()
        m = re.match(r"(byte|word|dword|short|near|strict)\s+", s)
        size = None
        while m:
            size = {"byte": 8, "word": 16, "dword": 32}.get(m.group(1), size)
            s = s[m.end():].strip()
            m = re.match(r"(byte|word|dword|short|near|strict)\s+", s)
        if s.startswith("["):
            return ("mem", size, s[1:-1])
        r = self.rget(s)
        if r:
            return ("reg", r[1], s)
        return ("imm", size, s)

    def get(self, o, w):
        if o[0] == "reg":
            if o[1] != w:
                raise Bad("operand size mismatch: %s" % self.line)
            return self.rget(o[2])[0]
        if o[0] == "mem":
            a, aw, sg = self.ea(o[2])
            return self.load(a, aw, sg, w // 8)
        v = self.num(o[2])
        if v is None:
            return self.label(o[2], w)
        return v & mask(w)

    def put(self, o, v, w):
        if o[0] == "reg":
            self.rset(o[2], v)
        elif o[0] == "mem":
            a, aw, sg = self.ea(o[2])
            self.store(a, aw, sg, w // 8, v)
        else:
            raise Bad("destination: %s" % self.line)

    def width(self, O):
        w = None
        for o in O:
            if o[0] == "reg" or o[0] == "mem" and o[1]:
                if w and w != o[1]:
                    raise Bad("operand sizes differ: %s" % self.line)
                w = o[1]
        if w is None:
            raise Bad("operand size unknown: %s" % self.line)
        return w

    # ---- one step; returns None, ("branch", cond, label) or ("done", kind)
    def step(self):
        if self.pc >= len(self.L):
            raise Bad("control runs off the end")
        s = self.line = self.L[self.pc]
        self.pc += 1
        if re.fullmatch(r"[\w.$@]+:", s) or re.match(r"(section|global|extern|bits|align\w*)\b", s):
            return None
        m = re.match(r"(\w+)\s*(.*)", s)
        op, rest = m.group(1), m.group(2).strip()
        if op == "db":
            self.prefix += [self.num(x) for x in rest.split(",")]
            return None
        ops = [x.strip() for x in rest.split(",")] if rest else []
        pre, self.prefix = self.prefix, []
        for p in pre:
            if p not in (0x66, 0x67):
                raise Bad("raw bytes %r before %s" % (pre, s))
        osz = (48 - self.bits) if 0x66 in pre else self.bits
        asz = (48 - self.bits) if 0x67 in pre else self.bits
        return self.insn(op, ops, osz, asz, rest)

    def flagres(self, w, r):
        self.flags = ("res", w, r, 0)

    def insn(self, op, ops, osz, asz, rest):
        if op in ("rep", "repe", "repne"):
            return self.string(rest, asz, op)
        O = [self.operand(x) for x in ops]
        if op == "mov":
            w = self.width(O)
            if O[0][0] == "reg" and O[0][2] == "cs":
                raise Bad("mov cs")
            self.put(O[0], self.get(O[1], w), w)
        elif op in ("movzx", "movsx"):
            dw, sw = O[0][1], O[1][1]
            if not sw or sw >= dw:
                raise Bad("%s sizes: %s" % (op, self.line))
            v = self.get(O[1], sw)
            self.put(O[0], T.zext(sw, v, dw) if op == "movzx" else T.sext(sw, v, dw), dw)
        elif op == "lea":
            a, aw, sg = self.ea(O[1][2])
            dw = O[0][1]
            if aw < dw:
                a = T.zext(aw, a, dw)
            self.put(O[0], T.trunc(aw, a, dw) if aw > dw else a, dw)
        elif op in ("add", "sub", "and", "or", "xor", "cmp", "test", "adc", "sbb"):
            w = self.width(O)
            a, b = self.get(O[0], w), self.get(O[1], w)
            if op in ("adc", "sbb"):
                c = self.cond("c")
                b = T.add(w, b, T.zext(1, c, w))
                op = "add" if op == "adc" else "sub"
            if op in ("cmp", "sub"):
                self.flags = ("cmp", w, a, b)
            if op == "cmp":
                return None
            f = {"add": T.add, "sub": T.sub, "and": T.and_, "or": T.or_, "xor": T.xor, "test": T.and_}[op]
            r = f(w, a, b)
            if op == "test":
                self.flagres(w, r)
                return None
            self.put(O[0], r, w)
            if op == "add":
                self.flags = ("add", w, r, b)
            elif op != "sub":
                self.flagres(w, r)
        elif op in ("inc", "dec"):
            w = self.width(O)
            r = (T.add if op == "inc" else T.sub)(w, self.get(O[0], w), 1)
            self.put(O[0], r, w)
            self.flagres(w, r)
        elif op == "neg":
            w = self.width(O)
            v = self.get(O[0], w)
            self.flags = ("cmp", w, 0, v)
            self.put(O[0], T.neg(w, v), w)
        elif op == "not":
            w = self.width(O)
            self.put(O[0], T.not_(w, self.get(O[0], w)), w)
        elif op in ("shl", "shr", "sar", "ror", "rol"):
            w = self.width(O[:1])
            k = self.num(O[1][2]) if O[1][0] == "imm" else None
            v = self.get(O[0], w)
            if k is None:
                k = self.get(O[1], 8)
                if op in ("ror", "rol"):
                    raise Bad(self.line)
                k = T.ext(8, k, 0, 5)
                k = T.zext(5, k, 8)
            if op == "ror" and k == 4 and w == 32 and self.flat == "seg" and not isc(v):
                lo, hi = T.fn("lo4", 4, v), T.fn("hi16", 16, v)
                if not any(x[0] is v for x in self.splits):
                    self.splits = self.splits + [(v, lo, hi)]
                self.put(O[0], T.cat([(lo, 4), (0, 12), (hi, 16)]), w)
                self.flags = None
                return None
            r = {"shl": T.shl, "shr": T.lshr, "sar": T.ashr}[op](w, v, k) if op[0] == "s" else \
                T.cat([(T.ext(w, v, 0, k), k), (T.ext(w, v, k, w - k), w - k)]) if op == "ror" else \
                T.cat([(T.ext(w, v, 0, w - k), w - k), (T.ext(w, v, w - k, k), k)])
            self.put(O[0], r, w)
            self.flagres(w, r)
        elif op == "push":
            if O[0][0] == "reg" and O[0][2] in self.segs:
                self.push(self.segs[O[0][2]], 16 if self.bits == 16 else 32)
            else:
                w = O[0][1] if O[0][0] != "imm" else None
                w = w or self.bits
                if O[0][0] == "reg" and w not in (16, 32):
                    raise Bad(self.line)
                if O[0][0] == "imm":
                    if O[0][1] == 32:
                        w = 32
                    v = self.num(O[0][2])
                    self.push(self.label(O[0][2], w) if v is None else v & mask(w), w)
                else:
                    self.push(self.get(O[0], w), w)
        elif op == "pop":
            if O[0][0] == "reg" and O[0][2] in self.segs:
                v = self.pop(16 if self.bits == 16 else 32)
                self.segs[O[0][2]] = v if self.bits == 16 else T.trunc(32, v, 16)
            else:
                w = O[0][1] or self.bits
                v = self.pop(w)
                self.put(O[0], v, w)
        elif op in ("pushad", "pusha"):
            w = 32 if op == "pushad" else self.bits
            sp = self.regs["esp"]
            for r in R32:
                self.push(T.trunc(32, sp if r == "esp" else self.regs[r], w), w)
        elif op in ("popad", "popa"):
            w = 32 if op == "popad" else self.bits
            for r in reversed(R32):
                v = self.pop(w)
                if r != "esp":
                    self.rset(r if w == 32 else r[1:], v)
        elif op == "leave":
            sw = self.bits
            self.rset("esp" if sw == 32 else "sp", T.trunc(32, self.regs["ebp"], sw))
            v = self.pop(osz)
            self.rset("ebp" if osz == 32 else "bp", v)
        elif op in ("cld", "std"):
            self.df = int(op == "std")
        elif op in ("cli", "sti", "nop"):
            pass
        elif op in ("movsb", "movsw", "movsd", "stosb", "stosw", "stosd", "lodsb"):
            return self.string1(op, asz)
        elif op == "jmp":
            if O[0][0] == "imm":
                return self.go(O[0][2])
            self.events.append(("jmp", self.get(O[0], O[0][1] or self.bits)))
            return ("done", "jmp")
        elif op in ("jcxz", "jecxz"):
            w = 16 if op == "jcxz" else 32
            return self.branch(T.cmp_("eq", w, T.trunc(32, self.regs["ecx"], w), 0), O[0][2])
        elif op == "loop":
            w = asz
            r = T.sub(w, T.trunc(32, self.regs["ecx"], w), 1)
            self.rset("ecx" if w == 32 else "cx", r)
            return self.branch(T.cmp_("ne", w, r, 0), O[0][2])
        elif op[0] == "j":
            return self.branch(self.cond(op[1:]), O[0][2])
        elif op.startswith("set"):
            self.put(O[0], T.zext(1, self.cond(op[3:]), 8), 8)
        elif op in ("cbw", "cwde", "cwd", "cdq"):
            a = self.regs["eax"]
            if op == "cbw":
                self.rset("ax", T.sext(8, T.ext(32, a, 0, 8), 16))
            elif op == "cwde":
                self.rset("eax", T.sext(16, T.ext(32, a, 0, 16), 32))
            elif op == "cwd":
                self.rset("dx", T.signs(16, T.ext(32, a, 0, 16), 16))
            else:
                self.rset("edx", T.signs(32, a, 32))
        elif op == "xchg":
            w = self.width(O)
            a, b = self.get(O[0], w), self.get(O[1], w)
            self.put(O[0], b, w)
            self.put(O[1], a, w)
        elif op in ("ret", "retf", "iret", "retn"):
            if op == "iret":
                ip, cs, fl = self.pop(self.bits), self.pop(self.bits), self.pop(self.bits)
                self.done = ("iret", ip, cs, fl)
            elif op == "retf":
                ip = self.pop(self.bits)
                cs = self.pop(self.bits)
                self.done = ("retf", ip, cs)
            else:
                self.done = ("ret", self.pop(self.bits))
            if ops:
                k = self.num(ops[0])
                sw = self.bits
                self.rset("esp" if sw == 32 else "sp", T.add(sw, T.trunc(32, self.regs["esp"], sw), k))
            return ("done", op)
        elif op == "int":
            self.events.append(("int", self.num(ops[0]), dict(self.regs), dict(self.segs)))
            self.ver += 1
            self.interrupt(self.num(ops[0]))
        elif op == "call":
            return self.call(O[0], ops[0])
        else:
            raise Bad("instruction %s" % self.line)
        return None

    def interrupt(self, n):
        raise Bad("software interrupt")

    def call(self, o, text):
        raise Bad("call of %s" % text)

    def go(self, lab):
        lab = re.sub(r"^(short|near)\s+", "", lab)
        if lab not in self.index:
            self.events.append(("goto", lab))
            return ("done", "goto")
        self.pc = self.index[lab]
        return None

    def branch(self, c, lab):
        lab = re.sub(r"^(short|near)\s+", "", lab)
        if isc(c):
            return self.go(lab) if c else None
        return ("branch", c, lab)

    def cond(self, cc):
        if self.flags is None:
            raise Bad("condition without flags: %s" % self.line)
        k, w, a, b = self.flags
        neg = cc.startswith("n") and cc not in ("nc",)
        cc = {"nz": "ne", "z": "e", "nc": "ae", "c": "b", "nb": "ae", "na": "be", "nl": "ge", "ng": "le", "nbe": "a", "nae": "b", "ns": "ns", "s": "s"}.get(cc, cc)
        if k == "cmp":
            p = {"e": "eq", "ne": "ne", "b": "ult", "ae": "uge", "be": "ule", "a": "ugt", "l": "slt", "ge": "sge", "le": "sle", "g": "sgt"}.get(cc)
            if p:
                return T.cmp_(p, w, a, b)
            if cc in ("s", "ns"):
                return T.cmp_("slt" if cc == "s" else "sge", w, T.sub(w, a, b), 0)
        if k == "add":
            if cc in ("b", "ae"):
                return T.cmp_("ult" if cc == "b" else "uge", w, a, b)
            k = "res"
        if k == "res":
            p = {"e": "eq", "ne": "ne", "s": "slt", "ns": "sge"}.get(cc)
            if p:
                return T.cmp_(p, w, a, 0)
            if cc in ("b", "a", "ae", "be"):     # carry clear after a logical operation
                return {"b": 0, "ae": 1, "be": T.cmp_("eq", w, a, 0), "a": T.cmp_("ne", w, a, 0)}[cc]
            p = {"l": "slt", "ge": "sge", "le": "sle", "g": "sgt"}.get(cc)
            if p:
                return T.cmp_(p, w, a, 0)
        raise Bad("condition %s after %s" % (cc, k))

    # ---- string instructions
    def string(self, what, asz, rep):
        if rep != "rep":
            raise Bad(self.line)
        n = {"movsb": 1, "stosb": 1, "movsw": 2, "movsd": 4, "stosw": 2, "stosd": 4}.get(what)
        if n is None:
            raise Bad(self.line)
        pf = "e" if asz == 32 else ""
        cnt = T.trunc(32, self.regs["ecx"], asz)
        di = T.trunc(32, self.regs["edi"], asz)
        si = T.trunc(32, self.regs["esi"], asz)
        nb = T.mulc(asz, cnt, n)
        adv = (lambda x: T.add(asz, x, nb)) if not self.df else (lambda x: T.sub(asz, x, nb))
        base = (lambda x: x) if not self.df else (lambda x: T.add(asz, T.sub(asz, x, nb), n))
        kd = self.spoff(base(di), asz, "es")
        dst = ("stk", kd) if kd is not None else ("lin", self.linear(base(di), asz, "es"))
        if what[0] == "m":
            ks = self.spoff(base(si), asz, "ds")
            src = ("stk", ks) if ks is not None else ("lin", self.linear(base(si), asz, "ds"))
            self.events.append(("copy", dst, src, nb, self.df, dict(self.segs)))
            self.rset(pf + "si", adv(si))
        else:
            self.events.append(("fill", dst, T.trunc(32, self.regs["eax"], 8 * n), n, nb))
        self.rset(pf + "di", adv(di))
        self.rset(pf + "cx", 0)
        self.ver += 1

    def string1(self, op, asz):
        n = {"b": 1, "w": 2, "d": 4}[op[-1]]
        pf = "e" if asz == 32 else ""
        step = (n if not self.df else -n) & mask(asz)
        si, di = T.trunc(32, self.regs["esi"], asz), T.trunc(32, self.regs["edi"], asz)
        if op[:4] in ("movs", "lods"):
            v = self.load(si, asz, "ds", n)
            self.rset(pf + "si", T.add(asz, si, step))
            if op[:4] == "lods":
                self.rset({1: "al", 2: "ax", 4: "eax"}[n], v)
        else:
            v = T.trunc(32, self.regs["eax"], 8 * n)
        if op[:4] in ("movs", "stos"):
            self.store(di, asz, "es", n, v)
            self.rset(pf + "di", T.add(asz, di, step))

    def run(self, stop=(), decide=None, limit=5000):
        """straight execution to 'done', a stop line index or an undecided branch"""
        for _ in range(limit):
            if self.pc in stop:
                return ("stop", self.pc)
            r = self.step()
            if r is None:
                continue
            if r[0] == "branch":
                d = decide(r[1]) if decide else None
                if d is None:
                    return r
                if d:
                    g = self.go(r[2])
                    if g:
                        return g
                continue
            return r
        raise Bad("no end of the routine")


def subterms(t, out=None):
    out = set() if out is None else out
    if isc(t) or t in out:
        return out
    out.add(t)
    stack = [t]
    while stack:
        x = stack.pop()
        for a in _children(x):
            if not isc(a) and a not in out:
                out.add(a)
                stack.append(a)
    return out


def _children(x):
    for a in x.args:
        if isinstance(a, T.Term):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T.Term):
                    yield b
                elif isinstance(b, tuple):
                    for c in b:
                        if isinstance(c, T.Term):
                            yield c


def clean(text):
    """assembly text -> (lines, label index)"""
    L, index = [], {}
    for ln in text.split("\n"):
        ln = ln.split(";", 1)[0].strip()
        if not ln:
            continue
        m = re.match(r"([\w.$@]+:)\s*(\S.*)?$", ln)
        if m:
            index[m.group(1)[:-1]] = len(L)
            L.append(m.group(1))
            if m.group(2):
                L.append(m.group(2).strip())
        else:
            L.append(ln)
    return L, index
