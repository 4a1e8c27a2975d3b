"""Abstract MIPS machine over value numbers, for residual assembly templates of
cgmips.c, and the comparison with the meaning of the RPN expression."""
import re
import terms as T
from terms import isc, mask, sgn
import cgx, emit, x86, sai
from x86 import Bad, X86, Mem, shift
from sai import AnalysisError

SAVED = [16, 17, 18, 19, 20, 21, 22, 23, 28, 29, 30]
MEMOP = {"lb": (1, 1), "lbu": (1, 0), "lh": (2, 1), "lhu": (2, 0), "lw": (4, 0)}
STOP = {"sb": 1, "sh": 2, "sw": 4}
REFLEX = {"subu": T.sub, "addu": T.add, "addiu": T.add, "and": T.and_, "or": T.or_, "xor": T.xor}


class Conds:
    """a value needed by the analysis (a table index) is split on the conditions in it"""

    def decide(self, st, c):
        return None

    def refine(self, st, c, val):
        return True

    def find(self, t):
        if isc(t) or not isinstance(t, T.Term):
            return None
        if t.op == "cmp" and t.w == 1:
            return t
        todo = list(t.args)
        while todo:
            x = todo.pop()
            if isinstance(x, (tuple, list)):
                todo.extend(x)
            elif isinstance(x, T.Term):
                r = self.find(x)
                if r is not None:
                    return r
        return None

    def splits(self, t):
        return self.find(t) is not None

    def splitstate(self, st, t):
        c = self.find(t)
        out = []
        for val in (1, 0):
            s = st.fork()
            s.status = None
            if not s.assume(c, val):
                continue
            m = {c: val}
            rg = s.frames[-1].regs
            for i, v in rg.items():
                if isinstance(v, T.Term):
                    rg[i] = T.subst(v, m)
                elif isinstance(v, sai.P) and not isc(v.off):
                    rg[i] = sai.P(v.obj, T.subst(v.off, m))
            out.append(s)
        return out


class Mips(X86):
    def __init__(self, holes, sp=None, known=()):
        self.model = "mips"
        self.W = 32
        self.holes = holes
        self.regs = {"$%d" % i: T.sym("r%d" % i, 32) for i in range(32)}
        self.regs["$0"] = 0
        self.regs["$lo"] = T.sym("lo0", 32)
        self.regs["$hi"] = T.sym("hi0", 32)
        self.sp0 = self.regs["$29"]
        self.segs = {}
        self.mem = Mem()
        self.stack = []
        self.slots = {}        # offset from the initial stack pointer -> word
        self.dirty = False
        self.hi = None         # label whose upper half is in $1
        self.noat = False
        self.pending = {}
        self.alive = 1
        self.exits = []
        self.calls = []
        self.vcount = 0
        self.callresults = 0
        self.flags = None
        self.low = 0
        self.init = dict(self.regs)
        self.leafreg = True

    # ---- state
    def snapshot(self):
        return (dict(self.regs), dict(self.slots), self.mem.copy(), [])

    def deflabel(self, l):
        for c, (regs, slots, mem, _) in self.pending.pop(l, []):
            if self.alive == 0:
                self.regs, self.slots, self.mem = regs, slots, mem
                self.alive = c
                continue
            for r in self.regs:
                self.regs[r] = T.ite(32, c, regs[r], self.regs[r])
            for k in list(self.slots):
                if k not in slots:
                    del self.slots[k]
                elif slots[k] is not self.slots[k] and slots[k] != self.slots[k]:
                    self.slots[k] = T.ite(32, c, slots[k], self.slots[k])
            if mem.stores != self.mem.stores:
                n = 0
                while n < len(mem.stores) and n < len(self.mem.stores) and mem.stores[n] == self.mem.stores[n]:
                    n += 1
                if len(mem.stores) != n:
                    raise Bad("stores on the jumping path")
                self.condstores = getattr(self, "condstores", [])
                self.condstores.append((T.lnot(c), self.mem.stores[n:]))
                self.mem.stores = self.mem.stores[:n]
            self.alive = T.or_(1, self.alive, c) if not (self.alive is T.lnot(c)) else 1
        self.hi = None

    def spofs(self, a):
        """offset of an address from the initial stack pointer, or None"""
        d = T.sub(32, a, self.sp0)
        return sgn(d, 32) if isc(d) else None

    def load(self, a, n, sg):
        o = self.spofs(a)
        if o is not None and o < 0:
            if o < self.spofs(self.regs["$29"]):
                raise Bad("read below the stack pointer")
            if o not in self.slots or n != 4:
                raise Bad("read of an uninitialised stack word")
            return self.slots[o]
        v = self.memload(a, n)
        if n == 4:
            return v
        return T.sext(8 * n, v, 32) if sg else T.zext(8 * n, v, 32)

    def store(self, a, n, v):
        o = self.spofs(a)
        if o is not None and o < 0:
            s = self.spofs(self.regs["$29"])
            if s is None or o < s:
                raise Bad("write below the stack pointer")
            if n != 4 or o % 4:
                raise Bad("partial write to the expression stack")
            self.slots[o] = v
            return
        self.memstore(a, n, T.ext(32, v, 0, 8 * n))

    # ---- operands
    def rd(self, r):
        if r not in self.regs:
            raise Bad("register %r" % r)
        if r == "$1" and not self.noat:
            raise Bad("$1 used while the assembler owns it")
        return self.regs[r]

    def wr(self, r, v):
        if not re.fullmatch(r"\$\d+", r) or r not in self.regs:
            raise Bad("register %r" % r)
        if r == "$0":
            return
        self.regs[r] = v
        if r == "$29":
            o = self.spofs(v)
            if o is None or o > 0 or o % 4:
                raise Bad("stack pointer set to %s" % (v,))
            for k in [k for k in self.slots if k < o]:
                del self.slots[k]

    def src(self, s):
        if s.startswith("$") and not s.startswith("$L"):
            return self.rd(s)
        v = self.number(s, 32)
        if v is None:
            raise Bad("operand %r" % s)
        return v

    def address(self, s):
        m = re.fullmatch(r"%lo\(([^()]+)\)\(\$1\)", s)
        if m:
            if not self.noat or self.hi != m.group(1):
                raise Bad("%%lo(%s) without its %%hi in $1" % m.group(1))
            return self.label(m.group(1), 32)
        m = re.fullmatch(r"(.*)\((\$\d+)\)", s)
        if not m:
            raise Bad("address %r" % s)
        ofs = self.number(m.group(1), 32) if m.group(1).strip() else 0
        if ofs is None:
            raise Bad("address %r" % s)
        return T.add(32, self.rd(m.group(2)), ofs)

    # ---- execution
    def run(self, text):
        self.lines = []
        for ln in text.split("\n"):
            ln = ln.split("#", 1)[0]
            if ln.strip():
                self.lines.append(ln.strip())
        for s in self.lines:
            self.line = s
            self.ins(s)
        return self

    def ins(self, s):
        m = re.fullmatch(r"([\w.$@]+):", s)
        if m:
            self.deflabel(m.group(1))
            return
        if self.alive == 0:
            # unreachable code has no meaning, but must still be an instruction
            pass
        op, _, rest = s.partition("\t") if "\t" in s else s.partition(" ")
        op = op.strip()
        O = [x.strip() for x in rest.split(",")] if rest.strip() else []
        if op == ".set":
            if O == ["noat"]:
                self.noat = True
            elif O == ["at"]:
                self.noat = False
                self.hi = None
            elif O not in (["reorder"],):
                raise Bad("directive %s" % s)
            return
        self.do(op, O)

    def need(self, O, *n):
        if len(O) not in n:
            raise Bad("operand count: %s" % self.line)

    def do(self, op, O):
        if op == "nop":
            return
        if op == "lui":
            self.need(O, 2)
            m = re.fullmatch(r"%hi\(([^()]+)\)", O[1])
            if O[0] != "$1" or not m or not self.noat:
                raise Bad("lui outside of a label access: %s" % self.line)
            self.hi = m.group(1)
            self.regs["$1"] = T.sym("hi:" + self.hi, 32)
        elif op == "move":
            self.need(O, 2)
            self.wr(O[0], self.rd(O[1]))
        elif op in ("mflo", "mfhi"):
            self.need(O, 1)
            self.wr(O[0], self.regs["$" + op[2:]])
        elif op == "li":
            self.need(O, 2)
            v = self.number(O[1], 32)
            if v is None:
                raise Bad("li of %r" % O[1])
            self.wr(O[0], v)
        elif op == "la":
            self.need(O, 2)
            if not re.fullmatch(r"[\w.$@]+", O[1]) or re.fullmatch(r"\$\d+", O[1]):
                raise Bad("la of %r" % O[1])
            self.wr(O[0], self.label(O[1], 32))
        elif op in MEMOP:
            self.need(O, 2)
            n, sg = MEMOP[op]
            self.wr(O[0], self.load(self.address(O[1]), n, sg))
        elif op in STOP:
            self.need(O, 2)
            self.store(self.address(O[1]), STOP[op], self.rd(O[0]))
        elif op in REFLEX or op in ("nor", "mul", "sll", "srl", "sra", "slt", "sltu"):
            self.need(O, 2, 3)
            a, b = (self.rd(O[0]), self.src(O[1])) if len(O) == 2 else (self.rd(O[1]), self.src(O[2]))
            if op in REFLEX:
                v = REFLEX[op](32, a, b)
            elif op == "nor":
                v = T.not_(32, T.or_(32, a, b))
            elif op == "mul":
                v = T.mul(32, a, b)
                self.regs["$lo"] = T.sym("lo.undef", 32)
                self.regs["$hi"] = T.sym("hi.undef", 32)
            elif op in ("slt", "sltu"):
                v = T.zext(1, T.cmp_("slt" if op == "slt" else "ult", 32, a, b), 32)
            else:
                v = shift({"sll": "shl", "srl": "shr", "sra": "sar"}[op], 32, a, T.ext(32, b, 0, 8))
            self.wr(O[0], v)
        elif op in ("div", "divu"):
            self.need(O, 3)
            if O[0] != "$0":
                raise Bad("%s with a destination register" % op)
            a, b = self.rd(O[1]), self.rd(O[2])
            if op == "div":
                self.regs["$lo"], self.regs["$hi"] = T.sdiv(32, a, b), T.srem(32, a, b)
            else:
                self.regs["$lo"], self.regs["$hi"] = T.udiv(32, a, b), T.urem(32, a, b)
        elif op in ("seb", "seh"):
            self.need(O, 2)
            n = 8 if op == "seb" else 16
            self.wr(O[0], T.sext(n, T.ext(32, self.rd(O[1]), 0, n), 32))
        elif op in ("beq", "bne"):
            self.need(O, 3)
            c = T.cmp_("eq", 32, self.rd(O[0]), self.src(O[1]))
            self.jump(c if op == "beq" else T.lnot(c), self.target(O[2]))
        elif op in ("bltz", "bgez", "blez", "bgtz"):
            self.need(O, 2)
            p = {"bltz": "slt", "bgez": "sge", "blez": "sle", "bgtz": "sgt"}[op]
            self.jump(T.cmp_(p, 32, self.rd(O[0]), 0), self.target(O[1]))
        elif op == "j":
            self.need(O, 1)
            if re.fullmatch(r"\$\d+", O[0]):
                self.exits.append((self.rd(O[0]), self.snapshot()))
                self.alive = 0
            else:
                self.jump(1, self.target(O[0]))
        elif op == "jal":
            self.need(O, 1)
            if re.fullmatch(r"\$\d+", O[0]):
                tgt = self.rd(O[0])
            elif re.fullmatch(r"[\w.$@]+", O[0]):
                tgt = "lab:" + O[0]
            else:
                raise Bad("jal %r" % O[0])
            self.call(tgt)
        else:
            raise Bad("instruction %s" % self.line)

    def target(self, s):
        if not re.fullmatch(r"\$L\d+|[A-Za-z_][\w$]*", s):
            raise Bad("branch target %r" % s)
        return s

    def call(self, tgt):
        s = self.spofs(self.regs["$29"])
        if s is None:
            raise Bad("stack pointer unknown at a call")
        if s > -16:
            raise Bad("no home area for the register arguments at a call")
        self.calls.append((tgt, s, dict(self.regs), dict(self.slots), self.alive))
        for k in range(s, s + 16, 4):
            self.slots.pop(k, None)
        self.callresults += 1
        self.vcount += 1
        for i in range(32):
            if i not in SAVED and i:
                self.regs["$%d" % i] = T.sym("call%d.r%d" % (self.callresults, i), 32)
        self.regs["$2"] = T.sym("call%d.eax" % self.callresults, 32)
        self.regs["$lo"] = T.sym("call%d.lo" % self.callresults, 32)
        self.regs["$hi"] = T.sym("call%d.hi" % self.callresults, 32)
        self.mem.stores.append(("call", self.callresults, 0))

    def _byte(self, k):
        for sk, sn, sv in reversed(self.mem.stores):
            if sk == "call":
                break
            d = T.sub(32, k, sk)
            if isc(d) and d < sn:
                return T.ext(sn * 8, sv, d * 8, 8)
        return T.fn("mem", 8, k, self.vcount)


class Den(cgx.Den):
    def lab(self, name):
        return T.sym("lab:" + mlabel(name), 32)

    def local(self, ofs):
        return T.add(32, self.m.regs["$30"], ofs)

    def key(self, p):
        return p

    def _byte(self, k):
        for sk, sn, sv in reversed(self.stores):
            if sk == "call":
                break
            d = T.sub(32, k, sk)
            if isc(d) and d < sn:
                return T.ext(sn * 8, sv, d * 8, 8)
        return T.fn("mem", 8, k, self.v)


def mlabel(name):
    return ("$L" + name) if name[0].isdigit() else name


class CG(cgx.CG):
    """the MIPS build of the compiler"""

    def __init__(self):
        cgx.CG.__init__(self, "smlrcm", ["-DNO_ANNOTATIONS"])

    def optsetup(self, I, st):
        return st

    def ev(self, d, x):
        if x[0] == "call":
            # arguments are written last parameter first
            args = [self.ev(d, a) for a in x[3]]
            cal = x[2]
            tgt = "lab:" + mlabel(cal[1]) if cal[0] == "ident" else self.ev(d, cal)
            d.ncalls += 1
            d.calls.append((tgt, args))
            d.v += 1
            d.stores.append(("call", d.ncalls, 0))
            return T.sym("call%d.eax" % d.ncalls, 32)
        if x[0] == "sc1":
            pass
        return cgx.CG.ev(self, d, x)


def discards(cg, rpn):
    """an assignment of 0 at the very end: its value is not used"""
    t = cg.t
    return len(rpn) > 1 and rpn[-1][0] == ord("=") and rpn[-2][0] in (t.tokNumInt, t.tokNumUint)


def setup(st):
    st.gset("GenLeaf", 1)
    st.user = dict(st.user, rel=Conds())


def check_expr(cg, model, rpn, jump=None):
    probs = []
    sts, holes = cg.gen(model, rpn, setup=setup)
    t = cg.t
    body = list(rpn)
    jmp = None
    if body[-1][0] in (t.tokIf, t.tokIfNot):
        jmp = body.pop()
    elif body[-1][0] == t.tokReturn:
        body.pop()
    nov = discards(cg, rpn)
    for st in sts:
        text = "".join(st.out)
        if st.status != "ret":
            probs.append(("no code is generated (%s)" % st.status, st))
            continue
        m = Mips(holes)
        d = Den(cg, Mips(holes))
        try:
            want = cg.ev(d, cg.tree(body))
            m.run(text)
        except Bad as e:
            probs.append(("malformed template: %s" % e, st))
            continue
        eqs = dict(st.eqs)
        eqs.update((x, ys[0]) for x, ys in T.pow2(st.facts.items()).items() if len(ys) == 1)
        S = (lambda v: T.subst(v, eqs)) if eqs else (lambda v: v)
        got = m.regs["$2"]
        if jmp is not None:
            exp = T.cmp_("ne" if jmp[0] == t.tokIf else "eq", 32, want, 0)
            pend = m.pending.pop("$L%d" % jmp[1], [])
            if len(pend) != 1:
                probs.append(("no conditional jump to the target label", st))
                continue
            if not cgx.same(S(pend[0][0]), S(exp), st):
                probs.append(("jump condition is %s, expected %s" % (S(pend[0][0]), S(exp)), st))
        elif nov:
            if got is not m.init["$2"] and not cgx.same(S(got), S(want), st):
                pass        # the value is not used
        elif not cgx.same(S(got), S(want), st):
            probs.append(("value in $2 is %s, expected %s" % (S(got), S(want)), st))
        gs = segs([(S(a) if a != "call" else a, n, S(v)) for a, n, v in m.mem.stores])
        ws = segs([(S(a) if a != "call" else a, n, S(v)) for a, n, v in d.stores])
        if len(gs) != len(ws):
            probs.append(("%d calls, expected %d" % (len(gs) - 1, len(ws) - 1), st))
        else:
            for g, w in zip(gs, ws):
                if g != w and not cgx.sameeff(g, w, st):
                    probs.append(("memory effect is %s, expected %s" % (g, w), st))
        gc = getattr(m, "condstores", [])
        wc = getattr(d, "conds", [])
        cs = lambda l: [(S(c), [(S(a) if a != "call" else a, n, S(v)) for a, n, v in s]) for c, s in l]
        if cs(gc) != cs(wc):
            probs.append(("conditional memory effect is %s, expected %s" % (gc, wc), st))
        if m.regs["$29"] is not m.sp0:
            probs.append(("stack pointer is %s after the expression" % (m.regs["$29"],), st))
        if m.pending:
            probs.append(("jump to an undefined label %s" % list(m.pending), st))
        for i in (16, 17, 18, 19, 20, 21, 22, 23, 28, 30):
            if m.regs["$%d" % i] is not m.init["$%d" % i]:
                probs.append(("register $%d is not preserved" % i, st))
        if m.noat:
            probs.append((".set noat left on", st))
        if len(m.calls) != len(d.calls):
            probs.append(("%d calls, expected %d" % (len(m.calls), len(d.calls)), st))
        else:
            for (tgt, s, regs, slots, alive), (wt, wargs) in zip(m.calls, d.calls):
                tg = tgt if isinstance(tgt, str) else S(tgt)
                wt = wt if isinstance(wt, str) else S(wt)
                if tg is not wt and tg != wt:
                    probs.append(("call target %s, expected %s" % (tg, wt), st))
                # the last pushed is the first parameter
                for i, w in enumerate(reversed(wargs)):
                    g = regs["$%d" % (4 + i)] if i < 4 else slots.get(s + 4 * i)
                    where = "$%d" % (4 + i) if i < 4 else "%d($29)" % (4 * i)
                    if g is None:
                        probs.append(("argument %d is not at %s" % (i + 1, where), st))
                    elif not cgx.same(S(g), S(w), st):
                        probs.append(("argument %d in %s is %s, expected %s" % (i + 1, where, S(g), S(w)), st))
        if d.calls and st.gget("GenLeaf") != 0:
            probs.append(("the function is still taken for a leaf after a call", st))
    return [(p, emit.listing(st, holes), cgx.sites(st)) for p, st in probs]


def segs(stores):
    """effects between calls"""
    out = [[]]
    for x in stores:
        if x[0] == "call":
            out.append([])
        else:
            out[-1].append(x)
    return [cgx.effects(x) for x in out]


# ---------------------------------------------------------------- whole functions
class FnMips(Mips):
    """runs a whole function step by step (the interface of stmt.FnX86)"""

    def __init__(self, holes, L, index):
        Mips.__init__(self, holes)
        self.L, self.index = L, index
        self.sect = ".text"
        self.base = 0
        self.pc = None
        self.branch = None
        self.event = None
        self.vcount = 0

    def fork(self):
        m = FnMips.__new__(FnMips)
        m.__dict__.update(self.__dict__)
        m.regs = dict(self.regs)
        m.slots = dict(self.slots)
        m.mem = self.mem.copy()
        m.calls = list(self.calls)
        m.exits = list(self.exits)
        m.pending = {}
        return m

    def key(self):
        f = lambda v: v if isc(v) else v.n
        return (self.pc, tuple(sorted((r, f(v)) for r, v in self.regs.items())), tuple(sorted((k, f(v)) for k, v in self.slots.items())),
                tuple(self.mem.stores), self.base, self.noat, self.hi)

    def memstore(self, key, n, v):
        self.mem.stores = [x for x in self.mem.stores if x[0] is not key or x[1] != n] + [(key, n, v)]

    def wr(self, r, v):
        Mips.wr(self, r, v)
        if r == "$30" and not self.base and v is not self.init["$30"]:
            o = self.spofs(self.regs["$29"])
            if o is None or o >= 0:
                raise Bad("frame pointer set before the frame is allocated")
            self.base = o
            self.fp = v

    def load(self, a, n, sg):
        o = self.spofs(a)
        if o is not None and self.base <= o < 0 and o not in self.slots:
            v = self.memload(a, n)
            return v if n == 4 else T.sext(8 * n, v, 32) if sg else T.zext(8 * n, v, 32)
        return Mips.load(self, a, n, sg)

    def store(self, a, n, v):
        o = self.spofs(a)
        if o is not None and self.base <= o < 0:
            if n == 4 and (v is self.init["$31"] or v is self.init["$30"]):
                self.slots[o] = v
                return
            if any(k < o + n and o < k + 4 for k in self.slots if k >= self.base):
                raise Bad("a saved register is overwritten")
            self.memstore(a, n, T.ext(32, v, 0, 8 * n))
            return
        Mips.store(self, a, n, v)

    def jump(self, cond, label):
        if label not in self.index:
            raise Bad("jump to the undefined label %s" % label)
        if isc(cond):
            if cond:
                self.pc = self.index[label]
            return
        self.branch = (cond, label)

    def deflabel(self, l):
        self.hi = None

    def call(self, tgt):
        s = self.spofs(self.regs["$29"])
        if s is None or s > self.base - 16:
            raise Bad("no home area for the register arguments at a call")
        if s != self.base - 16 and not (self.slots and min(self.slots) <= s + 16):
            raise Bad("the stack is not balanced at a call")
        n = tgt[4:] if isinstance(tgt, str) else "?"
        import fesem
        fp = fesem.FPRT.get(n)
        args = [self.regs["$%d" % i] for i in range(4, 8)]
        for k in range(s, s + 16, 4):
            self.slots.pop(k, None)
        for i in range(1, 32):
            if i not in SAVED:
                self.regs["$%d" % i] = T.sym("rfp.r%d" % i if fp else "r_%s.r%d" % (n, i), 32)
        self.regs["$lo"], self.regs["$hi"] = T.sym("rlo", 32), T.sym("rhi", 32)
        self.leaf = False
        if fp:
            k = 1 if fp in ("i2f", "u2f", "f2i", "f2u", "fneg") else 2
            a = args[:k]
            self.regs["$2"] = fesem.fp1(fp, a[0]) if k == 1 else (T.fn(fp, 32, *a) if fp in ("cmpL", "cmpG") else fesem.fp2(fp, *a))
            return
        self.regs["$2"] = T.sym("r_%s.eax" % n, 32)
        self.event = ("call", "_" + n, 0)

    def do(self, op, O):
        if op == "j" and O == ["$31"]:
            if self.regs["$31"] is not self.init["$31"]:
                raise Bad("the return address is %s" % (self.regs["$31"],))
            if self.regs["$29"] is not self.sp0:
                raise Bad("the stack pointer is %s at the return" % (self.regs["$29"],))
            for i in (16, 17, 18, 19, 20, 21, 22, 23, 28, 30):
                if self.regs["$%d" % i] is not self.init["$%d" % i]:
                    raise Bad("register $%d is not restored" % i)
            self.event = ("ret", self.regs["$2"])
            return
        Mips.do(self, op, O)

    def exec1(self, L, i):
        s = L[i].split("#", 1)[0].strip()
        if s and s not in (".text", ".align 2") and not s.startswith(".globl"):
            self.ins(s)
        return i + 1

    def advance(self, decide):
        """run to the next event or undecided branch: ("event", e) | ("branch", cond)"""
        seen = set()
        n = 0
        while True:
            n += 1
            if n > 20000:
                raise AnalysisError("no progress")
            if self.branch:
                c, l = self.branch
                d = decide(c)
                if d is None:
                    return ("branch", c)
                self.branch = None
                if d:
                    k = (l,) + self.key()
                    if k in seen:
                        return ("event", ("diverge",))
                    seen.add(k)
                    self.pc = self.index[l]
                continue
            if self.event:
                e, self.event = self.event, None
                return ("event", e)
            if self.pc >= len(self.L):
                raise Bad("control runs off the end of the code")
            pc = self.pc
            self.line = self.L[pc]
            m = re.fullmatch(r"([\w.$@]+):", self.line)
            if m and not m.group(1).startswith("$L") and pc != self.start:
                raise Bad("control falls into %s" % m.group(1))
            self.pc = pc + 1
            nx = self.exec1(self.L, pc)
            if self.pc == pc + 1:
                self.pc = nx
            elif self.pc <= pc:
                k = self.key()
                if k in seen:
                    return ("event", ("diverge",))
                seen.add(k)


def function_machine(holes, st, name):
    import stmt
    ls = [(t.strip(), l) for t, l in stmt.lines(st)]
    L = [t for t, _ in ls]
    index = {}
    for i, t in enumerate(L):
        m = re.fullmatch(r"([\w.$@]+):", t)
        if m:
            if m.group(1) in index:
                raise Bad("label %s is defined twice" % m.group(1))
            index[m.group(1)] = i
    if name not in index:
        raise Bad("function %s is not emitted" % name)
    m = FnMips(holes, L, index)
    m.pc = m.start = index[name]
    m.locs = [l for _, l in ls]
    return m
