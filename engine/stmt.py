"""Control flow of emitted functions.

The assembly of a whole function (obtained by abstract interpretation of the
compiler on a token stream) is read as a transition system whose events are
calls and returns; it is compared with the transition system of the source
statement by exploring their product.
"""
import re
import terms as T
from terms import isc, mask, sgn
import x86, emit, fesem, sai
from x86 import Bad
from emit import NUM
from sai import AnalysisError, Interp


def lines(st):
    """[(text, emitting location)] without comments and blank lines"""
    res = []
    cur, loc = "", None
    for o in st.out:
        for piece in re.split(r"(?<=\n)", o):
            if not piece:
                continue
            if loc is None:
                loc = getattr(o, "loc", "")
            cur += piece
            if cur.endswith("\n"):
                res.append((cur[:-1], loc))
                cur, loc = "", None
    if cur:
        res.append((cur, loc))
    out = []
    for t, l in res:
        t = t.split(";", 1)[0] if '"' not in t else t
        if t.strip():
            out.append((t.strip(), l))
    return out


class Diverge(Exception):
    pass


class FnX86(x86.X86):
    """runs a whole function step by step"""

    def __init__(self, model, holes, L, index):
        x86.X86.__init__(self, model, holes)
        self.L = L
        self.index = index        # label -> line number
        self.sect = ".text"
        self.relocs = []
        self.pendlab = []
        self.bytes = []
        self.relocated = False
        self.defs = {}
        self.pc = None
        self.frame = None
        self.bp = self.regs["ebp"]
        self.regs["ebp"] = T.sym("caller.ebp", 32)
        self.branch = None
        self.event = None
        self.framesize = 0

    def fork(self):
        m = FnX86.__new__(FnX86)
        m.__dict__.update(self.__dict__)
        m.regs = dict(self.regs)
        m.segs = dict(self.segs)
        m.mem = self.mem.copy()
        m.stack = list(self.stack)
        m.relocs = list(self.relocs)
        m.pendlab = list(self.pendlab)
        m.bytes = list(self.bytes)
        m.calls = list(self.calls)
        m.exits = list(self.exits)
        m.pending = {}
        return m

    def key(self):
        return (self.pc, tuple(sorted((r, v if isc(v) else v.n) for r, v in self.regs.items())),
                tuple((v if v is None or isc(v) else v.n, w) for v, w in self.stack), tuple(self.mem.stores), self.frame)

    def memstore(self, key, n, v):
        self.mem.stores = [x for x in self.mem.stores if x[0] is not key or x[1] != n] + [(key, n, v)]

    def jump(self, cond, label):
        if label not in self.index:
            raise Bad("jump to the undefined label %s" % label)
        if isc(cond):
            if cond:
                self.pc = self.index[label]
            return
        self.branch = (cond, label)

    def deflabel(self, l):
        pass

    def clobber(self):
        # named after the callee: results of earlier calls of the same function are dead
        tgt = self.calls[-1][0]
        n = tgt[4:] if isinstance(tgt, str) else "?"
        if n.startswith("___"):
            f = fesem.FPRT.get(n[1:])
            if f:
                self.vcount = 0
                self.fprt(f)
                return
        for r in ("eax", "ebx", "ecx", "edx", "esi", "edi"):
            self.regs[r] = T.sym("r%s.%s" % (n, r), 32)
        self.flags = None
        self.event = ("call", n, len(self.calls[-1][1]))

    def fprt(self, f):
        args = [v for v, w in self.calls[-1][1]]
        k = 1 if f in ("i2f", "u2f", "f2i", "f2u", "fneg") else 2
        a = list(reversed(args[-k:]))
        r = fesem.fp1(f, a[0]) if k == 1 else (T.fn(f, 32, *a) if f in ("cmpL", "cmpG") else fesem.fp2(f, *a))
        for x in ("ebx", "ecx", "edx", "esi", "edi"):
            self.regs[x] = T.sym("rfp." + x, 32)
        self.regs["eax"] = r
        self.flags = None

    def insn(self, op, ops):
        w = 16 if self.model == "seg16" else 32
        if op in ("mov", "movzx") and ops and ops[0] in ("bp", "ebp"):
            want = {"seg16": ("mov", "bp", "sp"), "seg32": ("mov", "ebp", "esp")}.get(self.model, ("movzx", "ebp", "sp"))
            if (op,) + tuple(ops) != want:
                raise Bad("frame set up by %s" % self.line)
            self.frame = len(self.stack)
            self.regs["ebp"] = self.bp
            return
        if op == "sub" and ops and ops[0] in ("sp", "esp") and self.frame == len(self.stack):
            if ops[0] != ("esp" if self.model == "seg32" else "sp"):
                raise Bad("frame allocated by %s" % self.line)
            n = int(ops[1])
            self.framesize = n
            if n:
                self.stack.append((None, 8 * n))
            return
        if op in ("ret", "retf") and self.frame is None:
            if len(self.stack) and not (len(self.stack) >= 2 and self.stack[-2][1] == "ret"):
                raise Bad("return with %d slots on the stack" % len(self.stack))
        if op == "iret":
            self.event = ("ret", "iret")
            return
        x86.X86.insn(self, op, ops)

    def leave(self, w):
        if self.frame is None:
            raise Bad("leave without a frame")
        want = 16 if self.model == "seg16" else 32
        if w != want:
            raise Bad("%d-bit leave" % w)
        self.stack = self.stack[:self.frame]
        v, pw = self.stack.pop()
        if pw != w or self.regs["ebp"] is not self.bp:
            raise Bad("frame pointer lost")
        self.regs["ebp"] = v if w == 32 else T.sym("caller.ebp", 32)
        self.frame = None

    def ret(self, kind):
        if len(self.stack) >= 2 and self.stack[-2][1] == "ret":
            return x86.X86.ret(self, kind)
        if self.frame is not None or self.stack:
            raise Bad("return without releasing the frame")
        if kind != ("far" if self.model in ("huge", "unreal") else "near"):
            raise Bad("%s return" % kind)
        e = self.regs["ebp"]
        if e is not T.sym("caller.ebp", 32):
            raise Bad("frame pointer of the caller is not restored")
        self.event = ("ret", T.ext(32, self.regs["eax"], 0, self.W))

    def advance(self, decide):
        """run to the next event or undecided branch: ("event", e) | ("branch", cond)"""
        seen = set()
        n = 0
        while True:
            n += 1
            if n > 20000:
                raise AnalysisError("no progress")
            if self.branch:
                c, l = self.branch
                d = decide(c)
                if d is None:
                    return ("branch", c)
                self.branch = None
                if d:
                    k = (l,) + self.key()
                    if k in seen:
                        return ("event", ("diverge",))
                    seen.add(k)
                    self.pc = self.index[l]
                continue
            if self.event:
                e, self.event = self.event, None
                return ("event", e)
            if self.pc >= len(self.L):
                raise Bad("control runs off the end of the code")
            pc = self.pc
            self.line = self.L[pc]
            m = re.fullmatch(r"([\w.$@]+):", self.line)
            if m and self.sect == ".text" and not m.group(1).startswith("L") and pc != self.start:
                raise Bad("control falls into %s" % m.group(1))
            self.pc = pc + 1
            nx = self.exec1(self.L, pc)
            if self.pc == pc + 1:
                self.pc = nx
            elif self.pc <= pc:      # backward jump taken
                k = self.key()
                if k in seen:
                    return ("event", ("diverge",))
                seen.add(k)


def function_machine(model, holes, st, name):
    ls = lines(st)
    L = [t for t, _ in ls]
    index = {}
    for i, t in enumerate(L):
        m = re.fullmatch(r"([\w.$@]+):", t)
        if m:
            if m.group(1) in index:
                raise Bad("label %s is defined twice" % m.group(1))
            index[m.group(1)] = i
    if name not in index:
        raise Bad("function %s is not emitted" % name)
    m = FnX86(model, holes, L, index)
    m.pc = m.start = index[name]
    m.locs = [l for _, l in ls]
    return m


# ---------------------------------------------------------------- reference
class Ref:
    """control-flow graph of a statement; nodes: ("call", name, next) ("br", pred, t, f) ("ret", term) ("goto", n)"""

    def __init__(self, W):
        self.W = W
        self.N = []
        self.labels = {}
        self.patches = []

    def node(self, *x):
        self.N.append(list(x))
        return len(self.N) - 1

    def res(self, name, kind="i"):
        return T.ext(32, T.sym("r_%s.eax" % name, 32), 0, self.W)

    def value(self, e, k):
        """emit evaluation of e continuing at k(term) -> node"""
        t = e[0]
        if t == "num":
            return k(e[1] & mask(self.W) if isc(e[1]) else T.ext(32, e[1], 0, self.W))
        if t in ("call", "fcall"):
            nx = k(self.res(e[1]))
            return self.node("call", e[1], nx)
        if t == "comma":
            nx = self.value(e[2], k)
            return self.value(e[1], lambda v: nx)
        if t in ("bin",):
            return self.value(e[2], lambda a: self.value(e[3], lambda b: k(self.bin(e[1], a, b))))
        raise AnalysisError("reference value %r" % (t,))

    def bin(self, op, a, b):
        return {"+": T.add, "-": T.sub}[op](self.W, a, b)

    def cond(self, e, t, f):
        k = e[0]
        if k == "num":
            if isc(e[1]):
                return t if e[1] & mask(self.W) else f
            return self.node("br", T.cmp_("ne", self.W, T.ext(32, e[1], 0, self.W), 0), t, f)
        if k == "not":
            return self.cond(e[1], f, t)
        if k == "and":
            return self.cond(e[1], self.cond(e[2], t, f), f)
        if k == "or":
            return self.cond(e[1], t, self.cond(e[2], t, f))
        if k == "comma":
            nx = self.cond(e[2], t, f)
            return self.value(e[1], lambda v: nx)
        if k == "paren":
            return self.cond(e[1], t, f)
        if k == "tern":
            return self.cond(e[1], self.cond(e[2], t, f), self.cond(e[3], t, f))
        if k == "rel":
            op = e[1]
            p = {"<": "slt", ">": "sgt", "<=": "sle", ">=": "sge", "==": "eq", "!=": "ne"}[op.strip("u")]
            if op[-1] == "u":
                p = "u" + p[1:]
            return self.value(e[2], lambda a: self.value(e[3], lambda b: self.node("br", T.cmp_(p, self.W, a, b), t, f)))
        if k == "frel":
            # operands may be evaluated in either order; calls are given in textual order
            return self.value(e[2], lambda a: self.value(e[3], lambda b: self.node("br", fesem.fpred(e[1], a, b), t, f)))
        if k == "fcall":
            return self.value(e, lambda v: self.node("br", fesem.fpred("!=", v, T.fn("i2f", 32, 0)), t, f))
        return self.value(e, lambda v: self.node("br", T.cmp_("ne", self.W, v, 0), t, f))

    def stmt(self, s, nx, brk, cont, sw=None):
        k = s[0]
        if k == "empty":
            return nx
        if k == "expr":
            if s[1][0] in ("and", "or", "not", "rel"):
                return self.cond(s[1], nx, nx)
            return self.value(s[1], lambda v: nx)
        if k == "block":
            for x in reversed(s[1]):
                nx = self.stmt(x, nx, brk, cont, sw)
            return nx
        if k == "if":
            t = self.stmt(s[2], nx, brk, cont, sw)
            f = self.stmt(s[3], nx, brk, cont, sw) if s[3] else nx
            return self.cond(s[1], t, f)
        if k == "while":
            h = self.node("goto", None)
            b = self.stmt(s[2], h, nx, h, sw)
            self.N[h][1] = self.cond(s[1], b, nx)
            return h
        if k == "do":
            h = self.node("goto", None)
            c = self.node("goto", None)
            b = self.stmt(s[1], c, nx, c, sw)
            self.N[h][1] = b
            self.N[c][1] = self.cond(s[2], h, nx)
            return h
        if k == "for":
            h = self.node("goto", None)
            u = self.node("goto", None)
            b = self.stmt(s[4], u, nx, u, sw)
            self.N[h][1] = self.cond(s[2], b, nx) if s[2] else b
            self.N[u][1] = self.stmt(("expr", s[3]), h, None, None) if s[3] else h
            return self.stmt(("expr", s[1]), h, None, None) if s[1] else h
        if k == "switch":
            cases = []
            dfl = []
            b = self.stmt(s[2], nx, nx, cont, (cases, dfl))

            def chain(v):
                n = dfl[0] if dfl else nx
                for val, node in reversed(cases):
                    n = self.node("br", T.cmp_("eq", self.W, v, val & mask(self.W)), node, n)
                return n
            return self.value(s[1], chain)
        if k == "case":
            n = self.node("goto", nx)
            sw[0].append((s[1], n))
            return n
        if k == "default":
            n = self.node("goto", nx)
            sw[1].append(n)
            return n
        if k == "break":
            return brk
        if k == "continue":
            return cont
        if k == "return":
            if s[1] is None:
                return self.node("ret", None)
            if s[1][0] in ("and", "or", "not", "rel", "frel"):
                return self.cond(s[1], self.node("ret", 1), self.node("ret", 0))
            return self.value(s[1], lambda v: self.node("ret", v))
        if k == "label":
            n = self.node("goto", nx)
            self.labels[s[1]] = n
            return n
        if k == "goto":
            n = self.node("goto", None)
            self.patches.append((n, s[1]))
            return n
        raise AnalysisError("reference statement %r" % (k,))

    def build(self, s):
        end = self.node("ret", "end")
        e = self.stmt(s, end, None, None)
        for n, l in self.patches:
            self.N[n][1] = self.labels[l]
        return e

    def advance(self, n, decide):
        seen = set()
        while True:
            x = self.N[n]
            if x[0] == "goto":
                if n in seen:
                    return ("event", ("diverge",), None)
                seen.add(n)
                n = x[1]
            elif x[0] == "br":
                d = decide(x[1])
                if d is None:
                    return ("branch", x[1], n)
                n = x[2] if d else x[3]
            elif x[0] == "call":
                return ("event", ("call", x[1]), x[2])
            else:
                return ("event", ("ret", x[1]), None)


class Facts(dict):
    """1-bit terms decided on this path"""

    def fork(self):
        f = Facts(self)
        f.eq = dict(self.eq)
        return f

    eq = {}

    def norm(self, c, W):
        c = fesem.rewrite(c, W, {})
        if self.eq and not isc(c):
            c = T.subst(c, self.eq)
            c = fesem.rewrite(c, W, {}) if not isc(c) else c
        if not isc(c) and c.op == "cmp" and c.args[0] in ("slt", "ult") and isc(c.args[1]) and not isc(c.args[2]):
            # k < x  ==  !(x < k + 1)
            p, k, x, w = c.args
            if k != (mask(w) >> (p == "slt")):
                c = T.lnot(T.cmp_(p, w, x, (k + 1) & mask(w)))
        return c

    def decide(self, c, W):
        c = self.norm(c, W)
        if isc(c):
            return c
        if c in self:
            return self[c]
        if c.op == "not":
            r = self.decide(c.args[0], W)
            return None if r is None else 1 - r
        n = T.lnot(c)
        if n in self:
            return 1 - self[n]
        return None

    def assume(self, c, v, W):
        c = self.norm(c, W)
        if isc(c):
            return c == v
        if c.op == "not":
            return self.assume(c.args[0], 1 - v, W)
        self[c] = v
        if c.op == "cmp" and c.args[0] == "eq" and isc(c.args[2]) and v:
            self.eq = dict(self.eq)
            self.eq[c.args[1]] = c.args[2]
        return True

    def drop(self, name):
        """results of an earlier call of the function are dead"""
        s = "r_%s.eax" % name
        f = Facts((k, v) for k, v in self.items() if not uses(k, s))
        f.eq = {k: v for k, v in self.eq.items() if not uses(k, s)}
        return f

    def key(self):
        return frozenset((k.n, v) for k, v in self.items())


def uses(t, name):
    return any(x.args[0] == name for x in T.syms(t))


def compare(m, ref, entry, void, runtime=()):
    """None or a message describing the first difference on a path"""
    W = m.W
    work = [(m, entry, Facts(), ())]
    seen = set()
    n = 0
    while work:
        a, r, facts, trace = work.pop()
        k = (a.key(), bool(a.branch), r, facts.key())
        if k in seen:
            continue
        seen.add(k)
        n += 1
        if n > 4000:
            raise AnalysisError("product too large")
        try:
            ea = a.advance(lambda c: facts.decide(c, W))
        except Bad as x:
            return "%s (after %s)" % (x, show(trace)), a, n
        if ea[0] == "branch":
            for v in (1, 0):
                f = facts.fork()
                if f.assume(ea[1], v, W):
                    work.append((a.fork(), r, f, trace))
            continue
        er = ref.advance(r, lambda c: facts.decide(c, W))
        if er[0] == "branch":
            for v in (1, 0):
                f = facts.fork()
                if f.assume(er[1], v, W):
                    b = a.fork()
                    b.event = ea[1]
                    work.append((b, er[2], f, trace))
            continue
        x, y = ea[1], er[1]
        if x[0] == "call" and y[0] == "call" and x[1] == "_" + y[1]:
            work.append((a, er[2], facts.drop(y[1]), trace + (cond(facts), y[1],)))
            continue
        if x[0] == "ret" and y[0] == "ret":
            if void or y[1] == "end" or y[1] is None:
                continue
            g, w = facts.norm(x[1], W), facts.norm(y[1], W)
            for c, v in facts.items():
                g, w = (T.subst(t, {c: v}) if not isc(t) else t for t in (g, w))
            if g is w or isc(g) and isc(w) and g == w:
                continue
            return "returns %s, expected %s (after %s)" % (g, w, show(trace)), a, n
        if x[0] == "diverge" and y[0] == "diverge":
            continue
        return "the code continues with %s where the program has %s (after %s; %s)" % (ev(x), ev(y), show(trace), cond(facts)), a, n
    return None, m, n


def ev(x):
    return {"call": "a call of %s" % x[1].strip("_") if len(x) > 1 and isinstance(x[1], str) else "", "ret": "a return",
            "diverge": "an endless loop"}[x[0]]


def show(t):
    return " ".join(str(x) for x in t if x) or "entry"


def cond(f):
    return "{" + ", ".join("%s=%d" % (k, v) for k, v in f.items()) + "}" if f else ""
