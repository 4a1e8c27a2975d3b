"""Abstract x86 machine over value numbers, for residual assembly templates.

Gives the meaning of an emitted instruction template in one of the four
memory models.  Registers hold 32-bit terms, memory is a set of byte value
numbers indexed by address value number, the stack is an explicit list.
"""
import re
import terms as T
from terms import isc, mask, sgn
from emit import NUM


class Bad(Exception):
    """the template has no meaning / is malformed in this model"""


R32 = ["eax", "ebx", "ecx", "edx", "esi", "edi", "ebp", "esp"]
R16 = {r[1:]: r for r in R32}
RL = {"al": "eax", "bl": "ebx", "cl": "ecx", "dl": "edx"}
RH = {"ah": "eax", "bh": "ebx", "ch": "ecx", "dh": "edx"}
SEG = ["cs", "ds", "es", "ss", "fs", "gs"]
CC = {
    "e": ("eq", 0), "z": ("eq", 0), "ne": ("ne", 0), "nz": ("ne", 0),
    "l": ("slt", 0), "ge": ("sge", 0), "le": ("sle", 0), "g": ("sgt", 0),
    "b": ("ult", 0), "c": ("ult", 0), "ae": ("uge", 0), "nc": ("uge", 0), "be": ("ule", 0), "a": ("ugt", 0),
}


class Mem:
    def __init__(self):
        self.stores = []

    def copy(self):
        m = Mem()
        m.stores = list(self.stores)
        return m


class X86:
    """model: seg16, seg32, huge, unreal"""

    def __init__(self, model, holes):
        self.model = model
        self.W = 16 if model == "seg16" else 32      # C machine word
        self.bits = 32 if model == "seg32" else 16   # code size
        self.holes = holes
        self.regs = {r: T.sym(r + "0", 32) for r in R32}
        if self.bits == 16:
            # ebp = movzx of sp by the prologue
            self.regs["ebp"] = T.zext(16, T.sym("bp0", 16), 32)
        self.segs = {s: T.sym(s + "0", 16) for s in SEG}
        if model == "seg16":
            self.segs["ss"] = self.segs["ds"] = self.segs["es"] = T.sym("dgroup", 16)
        if model == "unreal":
            self.segs["ds"] = self.segs["es"] = 0
        self.flags = None
        self.mem = Mem()
        self.stack = []      # (value, width)
        self.pending = {}    # label -> [(cond-path, snapshot)]
        self.alive = 1       # path condition (1-bit value)
        self.exits = []      # jumps to labels outside
        self.calls = []
        self.vcount = 0
        self.callresults = 0

    # ---- helpers
    def hole(self, s):
        m = NUM.fullmatch(s)
        return self.holes.vals[int(m.group(1))]

    def number(self, s, w):
        """immediate -> value of width w, or None"""
        s = s.strip()
        negv = False
        if s and s[0] in "+-":
            negv = s[0] == "-"
            s = s[1:].strip()
        if re.fullmatch(r"\d+", s):
            v = int(s) & mask(w)
        elif re.fullmatch(r"0x[0-9a-fA-F]+", s):
            v = int(s, 16) & mask(w)
        elif NUM.fullmatch(s):
            t, tw, signed = self.hole(s)
            if isc(t):
                v = (sgn(t, tw) if signed else t) & mask(w)
            elif w <= tw:
                v = T.ext(tw, t, 0, w)
            else:
                v = T.sext(tw, t, w) if signed else T.zext(tw, t, w)
        else:
            return None
        return T.neg(w, v) if negv else v

    def reg(self, r):
        if r in ("sp", "esp"):
            return T.sym("sp@%d" % len(self.stack), 16 if r == "sp" else 32), 16 if r == "sp" else 32
        if r in self.regs:
            return self.regs[r], 32
        if r in R16:
            return T.ext(32, self.regs[R16[r]], 0, 16), 16
        if r in RL:
            return T.ext(32, self.regs[RL[r]], 0, 8), 8
        if r in RH:
            return T.ext(32, self.regs[RH[r]], 8, 8), 8
        if r in SEG:
            return self.segs[r], 16
        return None

    def setreg(self, r, v, w=None):
        if r in self.regs:
            self.regs[r] = v
        elif r in R16:
            f = R16[r]
            self.regs[f] = T.cat([(T.ext(32, self.regs[f], 16, 16), 16), (v, 16)])
        elif r in RL:
            f = RL[r]
            self.regs[f] = T.cat([(T.ext(32, self.regs[f], 8, 24), 24), (v, 8)])
        elif r in RH:
            f = RH[r]
            o = self.regs[f]
            self.regs[f] = T.cat([(T.ext(32, o, 16, 16), 16), (v, 8), (T.ext(32, o, 0, 8), 8)])
        elif r in SEG:
            if r == "ss" or r == "cs":
                raise Bad("write to %s" % r)
            self.segs[r] = v
        else:
            raise Bad("register %r" % r)

    def label(self, s, w):
        return T.sym("lab:" + s, 32 if True else w)

    def addr(self, expr):
        """inside of [...] -> (address value number, 32 bits)"""
        e = expr.strip()
        seg = None
        asz = None
        m = re.match(r"(cs|ds|es|ss|fs|gs)\s*:", e)
        if m:
            seg = m.group(1)
            e = e[m.end():].strip()
        m = re.match(r"(dword|word)\s+", e)
        if m:
            asz = 32 if m.group(1) == "dword" else 16
            e = e[m.end():].strip()
        parts = re.findall(r"([+-]?)\s*((?:\x01\d+\x02)|[\w.$@]+(?:\s*\*\s*\d+)?)", e)
        if not parts or re.sub(r"\s", "", "".join(a + b for a, b in parts)) != re.sub(r"\s", "", e).replace("+-", "-"):
            # allow "+-5"
            parts = re.findall(r"([+-]*)\s*((?:\x01\d+\x02)|[\w.$@]+(?:\s*\*\s*\d+)?)", e)
            if re.sub(r"\s", "", "".join(a + b for a, b in parts)) != re.sub(r"\s", "", e):
                raise Bad("address [%s]" % expr)
        w = None
        regs = []
        disp = 0
        labels = []
        for sg, it in parts:
            n = sg.count("-") & 1
            it = it.strip()
            mul_ = re.fullmatch(r"(\w+)\s*\*\s*(\d+)", it)
            k = 1
            if mul_ and self.reg(mul_.group(1)):
                it, k = mul_.group(1), int(mul_.group(2))
            elif mul_ and mul_.group(1).isdigit():
                it = str(int(mul_.group(1)) * int(mul_.group(2)))
            r = self.reg(it)
            if r:
                if r[1] not in (16, 32):
                    raise Bad("address register %s" % it)
                if w is not None and w != r[1]:
                    raise Bad("mixed address sizes [%s]" % expr)
                w = r[1]
                regs.append((it, r[0], k))
                continue
            v = self.number(it, 32)
            if v is not None:
                disp = T.add(32, disp, T.neg(32, v) if n else v)
            else:
                labels.append(it)
        if w is None:
            w = asz or self.bits
        if w == 16:
            for it, _, k in regs:
                if it not in ("bx", "bp", "si", "di") or k != 1:
                    raise Bad("invalid 16-bit address [%s]" % expr)
        off = T.ext(32, disp, 0, w)
        usebp = False
        for it, v, k in regs:
            off = T.add(w, off, T.mulc(w, v, k))
            if it in ("bp", "ebp", "esp"):
                usebp = True
        for l in labels:
            off = T.add(w, off, T.trunc(32, self.label(l, 32), w))
        if seg is None:
            seg = "ss" if usebp else "ds"
        return off, w, seg, bool(labels)

    def linear(self, off, w, seg, haslabel):
        """value number identifying the memory location"""
        m = self.model
        if m == "seg16":
            if w != 16:
                raise Bad("32-bit address in 16-bit code")
            if seg not in ("ds", "ss", "es") or self.segs[seg] is not self.segs["ss"]:
                raise Bad("segment %s is not DGROUP" % seg)
            return T.zext(16, off, 32)
        if m == "seg32":
            if w != 32:
                raise Bad("16-bit address in 32-bit code")
            return off
        # huge / unreal
        if haslabel and (m == "huge" or w != 32):
            raise Bad("absolute address of a label in the %s model" % m)
        s = self.segs[seg]
        if seg == "ss":
            if w == 16:
                # ss:bp+n
                r = off
                base = T.add(32, T.shl(32, T.zext(16, s, 32), 4), 0)
                # bp+n: keep as 32-bit linear combination of zext(bp)
                d, c = T._lin(16, r)
                x = T.sext(16, c, 32)
                for t, k in d.items():
                    k = sgn(k, 16)
                    if t.op == "sym":
                        x = T.add(32, x, T.mulc(32, T.zext(16, t, 32), k & mask(32)))
                    elif t.op == "ext" and t.args[1] == 0 and t.args[0].w == 32 and k == 1:
                        x = T.add(32, x, t.args[0])
                    else:
                        x = T.add(32, x, T.mulc(32, T.sext(16, t, 32), k & mask(32)))
                return T.add(32, base, x)
            raise Bad("32-bit offset with ss")
        if m == "unreal":
            if s != 0:
                raise Bad("%s is not 0 in the unreal model" % seg)
            if w != 32:
                raise Bad("16-bit offset with flat %s" % seg)
            return off
        # huge: seg*16 + 16-bit offset
        if w != 16:
            raise Bad("32-bit offset in the huge model")
        lin = T.add(32, T.shl(32, T.zext(16, s, 32), 4), T.zext(16, off, 32))
        return lin

    def memload(self, key, n):
        out = []
        for i in range(n):
            out.append((self._byte(T.add(32, key, i)), 8))
        return T.cat(list(reversed(out)))

    def _byte(self, k):
        for sk, sn, sv in reversed(self.mem.stores):
            d = T.sub(32, k, sk)
            if isc(d) and d < sn:
                return T.ext(sn * 8, sv, d * 8, 8)
        return T.fn("mem", 8, k, self.vcount)

    def memstore(self, key, n, v):
        self.mem.stores.append((key, n, v))

    # ---- operands: ("reg",name,val,w) ("mem",size|None,addr) ("imm",text)
    def operand(self, s):
        s = s.strip()
        size = None
        m = re.match(r"(byte|word|dword)\s+", s)
        if m:
            size = {"byte": 8, "word": 16, "dword": 32}[m.group(1)]
            s = s[m.end():].strip()
        if s.startswith("["):
            if not s.endswith("]"):
                raise Bad("operand %r" % s)
            return ("mem", size, s[1:-1])
        r = self.reg(s)
        if r:
            return ("reg", s, r[0], r[1])
        return ("imm", size, s)

    def width(self, *ops):
        w = None
        for o in ops:
            x = o[3] if o[0] == "reg" else o[1] if o[0] == "mem" else None
            if x:
                if w and w != x:
                    raise Bad("operand size mismatch")
                w = x
        return w

    def get(self, o, w):
        if o[0] == "reg":
            if o[3] != w:
                raise Bad("operand size mismatch")
            return o[2]
        if o[0] == "mem":
            if self.stackslot(o):
                if not self.stack:
                    raise Bad("access below the expression stack")
                v, sw = self.stack[-1]
                if sw == "ret" and w == 16 or sw == w:
                    return v
                raise Bad("partial stack slot access")
            return self.memload(self.linear(*self.addr(o[2])), w // 8)
        v = self.number(o[2], w)
        if v is None:
            return self.immlabel(o[2], w)
        return v

    def immlabel(self, s, w):
        m = re.fullmatch(r"([\w.$@]+)\s*-\s*([\w.$@]+)", s.strip())
        if m:  # distance between labels, no relocation
            return T.trunc(32, T.sub(32, self.label(m.group(1), 32), self.label(m.group(2), 32)), w)
        if not re.fullmatch(r"[\w.$@]+", s.strip()):
            raise Bad("immediate %r" % s)
        if self.model == "huge" and not self.relocated:
            raise Bad("immediate label %s has no .relod/.relot record in the huge model" % s)
        if w != self.W:
            raise Bad("label %s in a %d-bit immediate" % (s, w))
        return T.trunc(32, self.label(s, 32), w)

    def put(self, o, v, w):
        if o[0] == "reg":
            self.setreg(o[1], v, w)
        elif o[0] == "mem":
            if self.stackslot(o):
                v0, sw = self.stack[-1]
                if not (sw == "ret" and w == 16 or sw == w):
                    raise Bad("partial stack slot access")
                self.stack[-1] = (v, sw)
                return
            self.memstore(self.linear(*self.addr(o[2])), w // 8, v)
        else:
            raise Bad("store to immediate")

    def cond(self, cc):
        if cc not in CC:
            raise Bad("condition %s" % cc)
        if self.flags is None:
            raise Bad("condition code used with undefined flags")
        w, a, b, kind = self.flags
        pred = CC[cc][0]
        if kind == "res" and pred not in ("eq", "ne"):
            raise Bad("condition %s after an operation that does not define it" % cc)
        return T.cmp_(pred, w, a, b)

    # ---- execution
    def snapshot(self):
        return (dict(self.regs), dict(self.segs), self.mem.copy(), list(self.stack))

    def jump(self, cond, label):
        c = T.and_(1, self.alive, cond)
        self.pending.setdefault(label, []).append((c, self.snapshot()))
        self.alive = T.and_(1, self.alive, T.lnot(cond))

    def deflabel(self, l):
        for c, (regs, segs, mem, stack) in self.pending.pop(l, []):
            if self.alive == 0:
                self.regs, self.segs, self.mem, self.stack = regs, segs, mem, stack
                self.alive = c
                continue
            # join: value = ite(came-by-jump, jump state, current)
            for r in self.regs:
                self.regs[r] = T.ite(32, c, regs[r], self.regs[r])
            for s in self.segs:
                if segs[s] is not self.segs[s] and segs[s] != self.segs[s]:
                    self.segs[s] = T.ite(16, c, segs[s], self.segs[s])
            if [x for x in mem.stores] != [x for x in self.mem.stores]:
                # join of different store histories: keep as conditional stores
                n = 0
                while n < len(mem.stores) and n < len(self.mem.stores) and mem.stores[n] == self.mem.stores[n]:
                    n += 1
                if len(mem.stores) != n:
                    raise Bad("stores on the jumping path")
                self.condstores = getattr(self, "condstores", [])
                self.condstores.append((T.lnot(c), self.mem.stores[n:]))
                self.mem.stores = self.mem.stores[:n]
            if len(stack) != len(self.stack):
                raise Bad("stack depth differs at label %s" % l)
            self.alive = T.or_(1, self.alive, c) if not (self.alive is T.lnot(c)) else 1
            self.flags = None

    def run(self, text):
        lines = text.split("\n")
        self.sect = ".text"
        self.relocs = []       # (section, label)
        self.defs = {}
        self.pendlab = []
        self.bytes = []        # raw db prefix
        self.relocated = False
        self.dd_at = {}
        out = []
        for ln in lines:
            ln = ln.split(";", 1)[0] if not re.search(r'"[^"]*;', ln) else ln
            if ln.strip():
                out.append(ln.strip())
        i = 0
        while i < len(out):
            self.line = out[i]
            i = self.exec1(out, i)
        if self.relocs:
            raise Bad("relocation record for a label that was not emitted: %s" % (self.relocs,))
        return self

    def exec1(self, L, i):
        s = L[i]
        m = re.fullmatch(r"section\s+(\.\w+)(?:\s+noalloc)?", s)
        if m:
            self.sect = m.group(1)
            return i + 1
        m = re.fullmatch(r"([\w.$@]+):", s)
        if m:
            self.deflabel(m.group(1))
            self.pendlab.append(m.group(1))
            return i + 1
        if self.sect in (".relod", ".relot"):
            m = re.fullmatch(r"dd\s+([\w.$@]+)", s)
            if not m:
                raise Bad("in %s: %s" % (self.sect, s))
            self.relocs.append((self.sect, m.group(1)))
            return i + 1
        if self.sect != ".text":
            raise Bad("code emitted in section %s: %s" % (self.sect, s))
        m = re.fullmatch(r"db\s+(.*)", s)
        if m:
            self.bytes += [int(x, 0) for x in m.group(1).split(",")]
            if self.bytes == [0x66]:
                if i + 1 < len(L) and L[i + 1] == "leave":
                    return i + 1
            return i + 1
        m = re.fullmatch(r"dd\s+([\w.$@]+)", s)
        if m:
            nl = []
            j = i + 1
            while j < len(L) and re.fullmatch(r"([\w.$@]+):", L[j]):
                nl.append(L[j][:-1])
                j += 1
            self.nextlabels = nl
            return self.rawdd(m.group(1), i)
        labs, self.pendlab = self.pendlab, []
        mm = re.match(r"(\S+)\s*(.*)", s)
        op, rest = mm.group(1), mm.group(2)
        ops = [x.strip() for x in rest.split(",")] if rest else []
        # commas inside brackets do not occur
        self.insn(op, ops)
        return i + 1

    def takereloc(self, sect):
        for k, (sc, l) in enumerate(self.relocs):
            if l in self.pendlab:
                if sc != sect:
                    raise Bad("relocation of %s recorded in %s, needs %s" % (l, sc, sect))
                del self.relocs[k]
                return True
        raise Bad("raw dword without a %s record: %s" % (sect, self.line))

    def rawdd(self, lab, i):
        b, self.bytes = self.bytes, []
        if self.bits != 16 or self.model not in ("huge", "unreal"):
            raise Bad("raw code dword in model %s" % self.model)
        if b == [0x9A]:
            self.takereloc(".relot")
            self.pendlab = []
            self.farcall(lab)
            return i + 1
        if self.model != "huge":
            raise Bad("raw code bytes %r in model %s" % (b, self.model))
        self.takereloc(".relod")
        self.pendlab = []
        v = self.label(lab, 32)
        if b == [0x66, 0x68]:
            self.stack.append((v, 32))
        elif len(b) == 2 and b[0] == 0x66 and 0xB8 <= b[1] <= 0xBF:
            self.setreg(["eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi"][b[1] - 0xB8], v)
        else:
            raise Bad("raw code bytes %r" % (b,))
        return i + 1

    def clobber(self):
        self.callresults += 1
        n = self.callresults
        for r in ("eax", "ebx", "ecx", "edx", "esi", "edi"):
            self.regs[r] = T.sym("call%d.%s" % (n, r), 32)
        if self.model == "huge":
            self.segs["ds"] = T.sym("call%d.ds" % n, 16)
            self.segs["es"] = T.sym("call%d.es" % n, 16)
        self.flags = None
        self.vcount += 1   # memory may change
        self.mem.stores.append(("call", n, None)) if False else None

    def farcall(self, lab):
        if lab in self.nextlabels:
            # call to the immediately following label: pushes that address (indirect call idiom)
            self.stack.append((T.ext(32, self.label(lab, 32), 0, 16), "ret"))
            return
        self.calls.append(("lab:" + lab, list(self.stack), self.alive))
        self.clobber()

    nextlabels = ()

    def stackslot(self, o):
        """True if memory operand o addresses the top of the expression stack"""
        if "bp" in o[2]:
            return False
        off, w, seg, hl = self.addr(o[2])
        if not isc(off) and off.op == "sym" and off.args[0].startswith("sp@"):
            if seg != "ss" and self.model != "seg32" and self.model != "seg16":
                raise Bad("stack access through %s" % seg)
            if off.args[0] != "sp@%d" % len(self.stack):
                raise Bad("stale stack pointer")
            return True
        return False

    def insn(self, op, ops):
        if self.bytes:
            b, self.bytes = self.bytes, []
            if b == [0x66] and op == "leave" and self.bits == 16:
                self.leave(32)
                return
            raise Bad("stray bytes %r before %s" % (b, op))
        O = [self.operand(x) for x in ops]
        W = self.W
        if op in ("mov",):
            if len(O) != 2:
                raise Bad("mov")
            w = self.width(*O)
            if w is None:
                raise Bad("operand size unknown: %s" % self.line)
            if O[0][0] == "mem" and O[1][0] == "mem":
                raise Bad("mem,mem")
            self.put(O[0], self.get(O[1], w), w)
        elif op in ("movsx", "movzx"):
            dw = O[0][3]
            sw = O[1][3] if O[1][0] == "reg" else O[1][1]
            if O[0][0] != "reg" or not sw or sw >= dw:
                raise Bad("%s operand sizes: %s" % (op, self.line))
            v = self.get(O[1], sw)
            self.setreg(O[0][1], T.sext(sw, v, dw) if op == "movsx" else T.zext(sw, v, dw))
        elif op == "lea":
            off, aw, seg, hl = self.addr(O[1][2])
            dw = O[0][3]
            if O[1][0] != "mem" or aw != dw and not (aw > dw):
                raise Bad("lea sizes")
            self.setreg(O[0][1], T.trunc(aw, off, dw))
        elif op in ("add", "sub", "and", "or", "xor", "cmp", "test"):
            w = self.width(*O)
            if w is None:
                raise Bad("operand size unknown: %s" % self.line)
            if O[0][0] == "mem" and O[1][0] == "mem":
                raise Bad("mem,mem")
            if O[0][0] == "reg" and O[0][1] in ("sp", "esp") and op in ("add", "sub"):
                k = self.get(O[1], w)
                self.adjsp(k if op == "sub" else T.neg(w, k), w)
                return
            a, b = self.get(O[0], w), self.get(O[1], w)
            if op == "cmp":
                self.flags = (w, a, b, "cmp")
                return
            if op == "test":
                self.flags = (w, T.and_(w, a, b), 0, "res")
                return
            f = {"add": T.add, "sub": T.sub, "and": T.and_, "or": T.or_, "xor": T.xor}[op]
            r = f(w, a, b)
            self.put(O[0], r, w)
            self.flags = (w, a, b, "cmp") if op == "sub" else (w, r, 0, "res")
        elif op in ("inc", "dec"):
            w = self.width(*O)
            if w is None:
                raise Bad("operand size unknown: %s" % self.line)
            r = T.add(w, self.get(O[0], w), 1 if op == "inc" else mask(w))
            self.put(O[0], r, w)
            self.flags = (w, r, 0, "res")
        elif op in ("neg", "not"):
            w = self.width(*O)
            if w is None:
                raise Bad("operand size unknown: %s" % self.line)
            a = self.get(O[0], w)
            r = T.neg(w, a) if op == "neg" else T.not_(w, a)
            self.put(O[0], r, w)
            if op == "neg":
                self.flags = (w, r, 0, "res")
        elif op == "cbw":
            self.setreg("ax", T.sext(8, self.reg("al")[0], 16))
        elif op == "cwd":
            self.setreg("dx", T.signs(16, self.reg("ax")[0], 16))
        elif op == "cdq":
            self.setreg("edx", T.signs(32, self.reg("eax")[0], 32))
        elif op == "cwde":
            self.setreg("eax", T.sext(16, self.reg("ax")[0], 32))
        elif op == "imul" and len(O) == 3:
            w = self.width(O[0], O[1])
            self.put(O[0], T.mul(w, self.get(O[1], w), self.get(O[2], w)), w)
            self.flags = None
        elif op == "imul" and len(O) == 2:
            w = self.width(O[0], O[1])
            self.put(O[0], T.mul(w, self.get(O[0], w), self.get(O[1], w)), w)
            self.flags = None
        elif op in ("mul", "imul"):
            w = self.width(*O)
            if w not in (16, 32):
                raise Bad("operand size unknown: %s" % self.line)
            a = self.reg("eax" if w == 32 else "ax")[0]
            b = self.get(O[0], w)
            self.setreg("eax" if w == 32 else "ax", T.mul(w, a, b))
            x, y = (a, b) if (isc(a), isc(a) or a.n) < (isc(b), isc(b) or b.n) else (b, a)
            self.setreg("edx" if w == 32 else "dx", T.fn(op + "hi", w, x, y))
            self.flags = None
        elif op in ("div", "idiv"):
            w = self.width(*O)
            if w not in (16, 32):
                raise Bad("operand size unknown: %s" % self.line)
            A, D = ("eax", "edx") if w == 32 else ("ax", "dx")
            a, d = self.reg(A)[0], self.reg(D)[0]
            b = self.get(O[0], w)
            if op == "div":
                if d != 0:
                    raise Bad("div with %s not zeroed" % D)
                q, r = T.udiv(w, a, b), T.urem(w, a, b)
            else:
                sg = T.signs(w, a, w)
                if not (d is sg or (isc(d) and isc(sg) and d == sg)):
                    raise Bad("idiv with %s not the sign of %s" % (D, A))
                q, r = T.sdiv(w, a, b), T.srem(w, a, b)
            self.setreg(A, q)
            self.setreg(D, r)
            self.flags = None
        elif op in ("shl", "shr", "sar", "sal"):
            w = self.width(O[0])
            if w is None:
                raise Bad("operand size unknown: %s" % self.line)
            a = self.get(O[0], w)
            if O[1][0] == "reg":
                if O[1][1] != "cl":
                    raise Bad("shift count register %s" % O[1][1])
                c = O[1][2]
            else:
                c = self.get(O[1], 8) if self.number(O[1][2], 8) is not None else None
                if c is None:
                    c = T.ext(32, self.label(O[1][2], 32), 0, 8)
            self.put(O[0], shift(op, w, a, c), w)
            self.flags = None
        elif op in ("ror", "rol"):
            w = self.width(O[0])
            k = self.get(O[1], 8)
            if not isc(k):
                raise Bad("rotate count")
            a = self.get(O[0], w)
            self.put(O[0], T.ror(w, a, k if op == "ror" else w - k), w)
        elif op.startswith("set"):
            if len(O) != 1 or self.width(*O) != 8:
                raise Bad("setcc operand")
            self.put(O[0], T.zext(1, self.cond(op[3:]), 8), 8)
        elif op == "jmp":
            if O[0][0] != "imm":
                raise Bad("indirect jmp")
            self.jump(1, O[0][2])
        elif op[0] == "j":
            self.jump(self.cond(op[1:]), O[0][2])
        elif op == "push":
            self.push(O[0])
        elif op == "pop":
            if not self.stack:
                raise Bad("pop from an empty expression stack")
            v, w = self.stack.pop()
            if O[0][0] == "reg" and O[0][3] != w or O[0][0] == "mem" and O[0][1] != w:
                raise Bad("pop size %s, pushed %s" % (O[0][3], w))
            self.put(O[0], v, w)
        elif op == "call":
            if self.model in ("huge", "unreal"):
                raise Bad("near call in the %s model" % self.model)
            if O[0][0] == "reg":
                if O[0][3] != W:
                    raise Bad("call through %s" % O[0][1])
                tgt = O[0][2]
            elif O[0][0] == "imm":
                tgt = "lab:" + O[0][2]
            else:
                raise Bad("call operand")
            self.calls.append((tgt, list(self.stack), self.alive))
            self.clobber()
        elif op == "ret" and self.model in ("seg16", "seg32"):
            self.ret("near")
        elif op == "retf" and self.model in ("huge", "unreal"):
            self.ret("far")
        elif op == "leave":
            self.leave(self.bits)
        else:
            raise Bad("instruction %s" % self.line)

    def push(self, o):
        if o[0] == "reg":
            w = o[3]
            if w == 8:
                raise Bad("push of a byte register")
            self.stack.append((o[2], w))
        elif o[0] == "mem":
            if o[1] not in (16, 32):
                raise Bad("push size")
            self.stack.append((self.get(o, o[1]), o[1]))
        else:
            w = o[1] if o[1] in (16, 32) else self.bits
            self.stack.append((self.get(o, w), w))

    def adjsp(self, k, w):
        if not isc(k):
            raise Bad("stack adjustment by an unknown amount")
        k = sgn(k, w)
        while k < 0:
            if not self.stack:
                raise Bad("stack pointer raised above the frame")
            v, pw = self.stack.pop()
            k += pw // 8
        if k > 0:
            self.stack.append((None, k * 8))
        elif k < 0:
            raise Bad("stack adjustment splits a slot")

    def ret(self, kind):
        if len(self.stack) >= 2 and self.stack[-2][1] == "ret":
            # push of the target address + return = indirect call
            tgt, w = self.stack.pop()
            rv, _ = self.stack.pop()
            if kind != "far" or w != 32:
                raise Bad("return used as a call with a %s address" % w)
            if isc(rv) or not (rv.op == "ext" and rv.args[1] == 0 and rv.args[0].op == "sym" and rv.args[0].args[0].startswith("lab:")):
                raise Bad("return address of the indirect call is %s" % (rv,))
            lab = rv.args[0].args[0][4:]
            lin = T.add(32, T.shl(32, T.zext(16, T.ext(32, tgt, 16, 16), 32), 4), T.zext(16, T.ext(32, tgt, 0, 16), 32))
            self.calls.append((lin, list(self.stack), self.alive))
            self.clobber()
            self.jump(1, lab)
            return
        self.exits.append(("ret", kind, self.snapshot()))
        self.alive = 0

    def leave(self, w):
        self.exits.append(("leave", w))


def shift(op, w, a, c):
    if isc(c):
        c &= 31
        if op == "shr":
            return T.lshr(w, a, c)
        if op == "sar":
            return T.ashr(w, a, c)
        return T.shl(w, a, c)
    n = {"shl": "shl", "sal": "shl", "shr": "lshr", "sar": "ashr"}[op]
    return T.mk(n, w, a, c)
