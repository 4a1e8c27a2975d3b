"""Code generation for MIPS (cgmips.c)"""
import re, sys
sys.setrecursionlimit(20000)
import terms as T
from terms import isc, mask, sgn
import mips, cgx, cgxparts, par, emit, fe, sai
from sai import AnalysisError, P
from x86 import Bad


def extras(cg, thorough):
    """shapes that matter here only: register arguments, spilled temporaries, operands in every temporary register"""
    t = cg.t
    loc = lambda k, s=4: [(t.tokLocalOfs, T.sym("ofs%d" % k, 32)), (t.tokUnaryStar, s)]
    k = lambda n: [(t.tokNumInt, T.sym("c%d" % n, 32))]
    fn = [(t.tokIdent, cg.ident["fn1"])]
    fp = loc(9)
    va = [(t.tokIdent, cg.ident["va"])]

    def call(callee, *args):
        """args in source order"""
        n = 4 * len(args)
        r = [(ord("("), n)]
        for a in reversed(args):
            r += list(a) + [(ord(","), 0)]
        return r + callee + [(ord(")"), n)]
    minus = lambda a, b: a + b + [(ord("-"), 0)]
    A = [("const", k(1)), ("local", loc(1)), ("local-local", minus(loc(1), loc(2))), ("&global", va), ("*ptr", loc(3) + [(t.tokUnaryStar, -1)]),
         ("local/(local-local)", loc(1) + minus(loc(2), loc(3)) + [(ord("/"), 0)]), ("local++", [(t.tokLocalOfs, T.sym("ofs4", 32)), (t.tokPostInc, 2)]),
         ("(global=local)", va + loc(1) + [(ord("="), 4)]), ("(*p+=local)", loc(3) + loc(2) + [(t.tokAssignAdd, 1)]),
         ("(*p=0)", loc(3) + [(t.tokNumInt, 0), (ord("="), 4)])]
    for cn, c in (("fn1", fn), ("(*fp)", fp)):
        for n in range(1, 8):
            for pos in range(n):
                for an, a in A:
                    args = [loc(20 + i) for i in range(n)]
                    args[pos] = a
                    yield "call", "%s(%d args, #%d %s)" % (cn, n, pos + 1, an), call(c, *args)
            for an, a in A[:4]:
                yield "call", "%s(%d args) of %s" % (cn, n, an), call(c, *([a] * n))
                yield "call", "%s - %s(%d args)" % (an, cn, n), minus(a, call(c, *[loc(20 + i) for i in range(n)]))
                yield "call", "%s(%d args) - %s" % (cn, n, an), minus(call(c, *[loc(20 + i) for i in range(n)]), a)
    g = lambda *a: call([(t.tokIdent, cg.ident["vb"])], *a)
    for n in range(0, 6):
        for m in range(1, 6):
            for pos in range(m):
                args = [loc(20 + i) for i in range(m)]
                args[pos] = g(*[loc(30 + i) for i in range(n)])
                yield "call", "fn1(%d args, #%d vb(%d args))" % (m, pos + 1, n), call(fn, *args)
                args[pos] = minus(loc(19), g(*[loc(30 + i) for i in range(n)]))
                yield "call", "fn1(%d args, #%d local-vb(%d args))" % (m, pos + 1, n), call(fn, *args)
            yield "call", "vb(%d)-fn1(%d)" % (n, m), minus(g(*[loc(30 + i) for i in range(n)]), call(fn, *[loc(20 + i) for i in range(m)]))
        yield "call", "fn1(vb(%d), vb(%d))" % (n, n), call(fn, g(*[loc(30 + i) for i in range(n)]), g(*[loc(40 + i) for i in range(n)]))
        yield "call", "(vb(%d))(x)" % n, call(g(*[loc(30 + i) for i in range(n)]), loc(1))
        yield "call", "*p = vb(%d)" % n, loc(1) + g(*[loc(30 + i) for i in range(n)]) + [(ord("="), 4)]
        yield "call", "*p -= vb(%d)" % n, loc(1) + g(*[loc(30 + i) for i in range(n)]) + [(t.tokAssignSub, 2)] if n == 0 else \
            loc(1) + minus(loc(2), loc(3)) + [(t.tokAssignSub, 2)]
        yield "call", "local + (local - vb(%d))" % n, loc(1) + minus(loc(2), g(*[loc(30 + i) for i in range(n)])) + [(ord("+"), 0)]
    # the operands of every operator in every temporary register and on the stack
    X = [("local", loc(1)), ("*ptr", loc(3) + [(t.tokUnaryStar, 1)]), ("const", k(1)), ("*(p-q)", minus(loc(3), loc(5)) + [(t.tokUnaryStar, -2)])]
    Y = [("local", loc(2)), ("const", k(2)), ("local-local", minus(loc(2), loc(6)))]
    for depth in (range(0, 12) if thorough else (0, 1, 3, 6, 7, 8, 9, 11)):
        def nest(r):
            out = []
            for i in range(depth):
                out += loc(40 + i)
            return out + r + [(ord("-"), 0)] * depth
        for xn, x in X:
            for yn, y in Y:
                for tk in cg.BIN:
                    yield "deep", "%d deep: %s %s %s" % (depth, xn, cgxparts.opname(cg, tk), yn), nest(x + y + [(tk, 0)])
        for lv, l in (("local", [(t.tokLocalOfs, T.sym("ofs1", 32))]), ("global", va), ("*ptr", loc(3)), ("*(p-q)", minus(loc(3), loc(5)))):
            for yn, y in Y:
                for tk in cg.ASG:
                    for s in (4, -1) if not thorough else (1, -1, 2, -2, 4):
                        yield "deep", "%d deep: %s.%d %s %s" % (depth, lv, s, cgxparts.opname(cg, tk), yn), nest(l + y + [(tk, s)])
                if yn != "const":
                    continue
            for tk in (t.tokInc, t.tokDec, t.tokPostInc, t.tokPostDec):
                yield "deep", "%d deep: %s of %s" % (depth, cgxparts.opname(cg, tk), lv), nest(l + [(tk, -2)])
            for tk in (t.tokPostAdd, t.tokPostSub):
                yield "deep", "%d deep: %s of %s" % (depth, cgxparts.opname(cg, tk), lv), nest(l + k(1) + [(tk, 4)])
                yield "deep", "%d deep: %s of %s by local" % (depth, cgxparts.opname(cg, tk), lv), nest(l + loc(2) + [(tk, 2)])
        for xn, x in X:
            for tk in (ord("~"), t.tokUnaryMinus, t.tok_Bool, t.tokSChar, t.tokUChar, t.tokShort, t.tokUShort):
                yield "deep", "%d deep: %s of %s" % (depth, cgxparts.opname(cg, tk), xn), nest(x + [(tk, 0)])


FILES = ("smlrc.c", "lb.c", "cgmips.c")
ASSUME = ["MIPS instruction and assembler macro semantics as transcribed in engine/mips.py", "-DNO_ANNOTATIONS drops only the comment lines from the output"]


def exprs(r):
    r.files = FILES
    cg = mips.CG()
    cg.init("mips")
    jobs = list(cgxparts.parts(cg, "mips", r.thorough)) + list(extras(cg, r.thorough))

    def one(j):
        cg.covered = set()
        try:
            return mips.check_expr(cg, "mips", j[2]), cg.covered
        except AnalysisError as e:
            raise AnalysisError("%s: %s" % (j[1], e))
    cov = set()
    for (g, n, rpn), (pr, c) in zip(jobs, par.pmap(one, jobs)):
        cov |= c
        r.count("partitions")
        r.count("partitions_" + g)
        r.sample(n) if r.cover["partitions"] % 1997 == 1 else None
        for msg, lst, sites in pr:
            r.violation(n, "v0100/cgmips.c %s" % (sites[0] if sites else "GenExpr"), "expression '%s': %s" % (n, msg), lst)
    r.cover["functions"] = sorted({f for f, b in cov})
    r.count("basic_blocks", len(cov))
    r.rule("MIPS expressions. Abstract interpretation of cgmips.c's LLVM IR (constants x value numbers, trace partitioning) per operand-shape class gives the residual assembly "
           "template of every path; its meaning under a MIPS transfer function (registers, stack words, lo/hi, %hi/%lo pairs, o32 argument registers and home area) must equal the "
           "meaning of the RPN expression for all operand values: value in $2, stores, call targets and arguments, stack pointer and saved registers as before.")
    r.assume += ASSUME
    r.need("partitions", 15000)
    r.need("partitions_deep", 4000)
    r.need("partitions_call", 1000)


# ---------------------------------------------------------------- functions
class Fn(mips.Mips):
    """a straight-line function: the frame lies between the stack pointer after the prolog and the one at entry"""

    def __init__(self, holes, push=None, copy=None):
        mips.Mips.__init__(self, holes)
        self.base = 0
        self.pushlab, self.copylab = push, copy
        self.copies = []
        self.lowest = 0

    def inframe(self, o):
        return self.base <= o < 0

    def wr(self, r, v):
        mips.Mips.wr(self, r, v)
        if r == "$30" and not self.base:
            o = self.spofs(self.regs["$29"])
            if o is not None and o < 0:
                self.base = o
        if r == "$29":
            self.lowest = min(self.lowest, self.spofs(v))

    def load(self, a, n, sg):
        o = self.spofs(a)
        if o is not None and self.inframe(o) and o not in self.slots:
            v = self.memload(a, n)
            return v if n == 4 else T.sext(8 * n, v, 32) if sg else T.zext(8 * n, v, 32)
        return mips.Mips.load(self, a, n, sg)

    def store(self, a, n, v):
        o = self.spofs(a)
        if o is not None and self.inframe(o):
            for k in list(self.slots):
                if k < o + n and o < k + 4 and self.base:
                    if (k, n) != (o, 4):
                        raise Bad("the saved word at %d($29) is partly overwritten" % k)
                    self.slots[k] = v
                    return
            if n == 4 and (v is self.init["$31"] or v is self.init["$30"]):
                self.slots[o] = v      # a saved register: no callee can change it
                return
            self.memstore(a, n, T.ext(32, v, 0, 8 * n))
            return
        mips.Mips.store(self, a, n, v)

    def call(self, tgt):
        if isinstance(tgt, str) and tgt == self.pushlab and self.pushlab:
            # net effect of the structure push helper (analysed separately): words 1.. pushed, word 0 in $2
            src, size = self.regs["$4"], self.regs["$5"]
            if not isc(size) or not size:
                raise Bad("structure of %s bytes is pushed" % (size,))
            s = self.spofs(self.regs["$29"])
            if s > -16:
                raise Bad("no home area at the structure push")
            n = (size + 3) // 4
            words = [self.memload(T.add(32, src, 4 * i), 4) for i in range(n)]
            for k in [k for k in self.slots if k < s + 16]:
                del self.slots[k]
            new = s - 4 * (n - 1)
            # after the caller drops its 16 bytes, words 1.. are on the stack
            self.regs["$29"] = T.add(32, self.sp0, new & mask(32))
            for i in range(1, n):
                self.slots[new + 16 + 4 * (i - 1)] = words[i]
            for i in list(range(1, 16)) + [24, 25, 31]:
                self.regs["$%d" % i] = T.sym("push%d.r%d" % (len(self.mem.stores) + 1000 * new, i), 32)
            self.regs["$2"] = words[0]
            return
        if isinstance(tgt, str) and tgt == self.copylab and self.copylab:
            s = self.spofs(self.regs["$29"])
            if s is None or s > -16:
                raise Bad("no home area at the structure copy")
            self.copies.append((self.regs["$6"], self.regs["$5"], self.regs["$4"], len(self.calls)))
            dst = self.regs["$6"]
            self.vcount += 1
            self.mem.stores.append(("call", self.vcount, 0))
            for i in list(range(1, 16)) + [24, 25, 31]:
                self.regs["$%d" % i] = T.sym("copy%d.r%d" % (self.vcount, i), 32)
            self.regs["$2"] = dst
            return
        mips.Mips.call(self, tgt)


def machine(st, h, name):
    """the lines of one function, run to its return"""
    import stmt
    ls = stmt.lines(st)
    i = next((i for i, (t, _) in enumerate(ls) if t == name + ":"), None)
    if i is None:
        raise Bad("function %s is not emitted" % name)
    lab = lambda g: "lab:$L%d" % st.gget(g) if isc(st.gget(g)) and st.gget(g) else None
    m = Fn(h, lab("StructPushLabel"), lab("StructCpyLabel"))
    m.loc = ls[i][1]
    for t, loc in ls[i:]:
        t = t.split("#", 1)[0].strip()
        if not t or t.startswith(".text"):
            continue
        m.line, m.loc = t, loc
        m.ins(t)
        if m.exits:
            break
    return m


def exitprobs(m):
    probs = []
    if len(m.exits) != 1:
        return ["the function does not return"]
    tgt, (regs, slots, mem, _) = m.exits[0]
    if tgt is not m.init["$31"]:
        probs.append("returns to %s" % (tgt,))
    if regs["$29"] is not m.sp0:
        probs.append("stack pointer is %s at the return" % (regs["$29"],))
    for i in (16, 17, 18, 19, 20, 21, 22, 23, 28, 30):
        if regs["$%d" % i] is not m.init["$%d" % i]:
            probs.append("register $%d is %s at the return" % (i, regs["$%d" % i]))
    if m.pending and any(k.startswith("$L") for k in m.pending):
        probs.append("jump to an undefined label %s" % list(m.pending))
    return probs


def size(t):
    import frames
    return frames.size(t, 4)


def words(params):
    ofs, out = 0, {}
    for n, t in params:
        out[n] = ofs
        ofs += (size(t) + 3) // 4 * 4
    return out, ofs


def check_layout(f, base, name, params, tree, ret="void"):
    import frames
    ps = [("p%d" % i, t) for i, t in enumerate(params)]
    tr = tree + ([] if tree else ["int"])
    b, _ = frames.body_of(tr, ps)
    rs = ret.startswith(("struct", "union"))
    text = "%s f(%s) { %s %s }" % (ret, ", ".join(frames.declare(t, n) for n, t in ps) or "void", b, "return g0;" if rs else "")
    sts, h = f.resume(base.fork(), f.lex(text.replace("g0", "g" + ret.split()[-1])))
    if len(sts) != 1 or sts[0].status != "fin":
        return text, ["is rejected: %s" % sts[0].status], "v0100/smlrc.c"
    st = sts[0]
    probs = []
    try:
        m = machine(st, h, "f")
    except Bad as x:
        return text, [str(x)], "smlrc"
    want = frames.plan(tr, ps)
    calls = [c for c in m.calls if c[0] == "lab:e"]
    if len(calls) != len(want):
        return text, ["%d calls emitted, %d written" % (len(calls), len(want))], m.loc
    full = ([("hidden", "char*")] if rs else []) + ps
    expect, _ = words(full)
    addr = {}
    low = m.base
    for (n, t, live), (_, s, regs, slots, al) in zip(want, calls):
        o = m.spofs(regs["$4"])
        if o is None:
            probs.append("address of %s is %s" % (n, regs["$4"]))
            continue
        if addr.setdefault(n, o) != o:
            probs.append("%s moves from %d to %d" % (n, addr[n], o))
        if n in expect and o != expect[n]:
            probs.append("parameter %s is read at %d from the entry stack pointer, the caller puts it at %d" % (n, o, expect[n]))
        if n not in expect:
            if o + size(t) > -8 or o < low:
                probs.append("%s (%d bytes at %d) lies outside the frame" % (n, size(t), o))
            e = t.split("[")[0]
            a = 1 if e.endswith("char") or re.fullmatch(r"struct S\d", e) else 2 if e.endswith("short") or e == "unsigned short" else 4
            if o % a:
                probs.append("%s at %d is not aligned" % (n, o))
        for n2, t2 in live:
            if n2 != n and n2 in addr:
                a, b2 = addr[n], addr[n2]
                if a < b2 + size(t2) and b2 < a + size(t):
                    probs.append("%s at %d overlaps %s at %d" % (n, a, n2, b2))
        if s + 16 != low:
            probs.append("stack pointer is off by %d at the call of e(%s)" % (s + 16 - low, n))
    if low % 4:
        probs.append("frame of %d bytes misaligns the stack" % -low)
    # register arguments are in their home words before the first call
    hidden = 1 if rs else 0
    m0 = prolog(m)
    for i in range(min(4, len(params) + hidden)):
        if m0.get(4 * i) is not m.init["$%d" % (4 + i)]:
            probs.append("argument register $%d is not stored in its home word (%s)" % (4 + i, m0.get(4 * i)))
    for o in m0:
        if o % 4 or not 0 <= o < 16 or m0[o] is not m.init["$%d" % (4 + o // 4)]:
            probs.append("the prolog stores %s over the caller's word at %d" % (m0[o], o))
    if rs:
        if len(m.copies) != 1:
            probs.append("%d structure copies" % len(m.copies))
        else:
            d, s, n, _ = m.copies[0]
            if not any(d is x for x in m.hiddenload):
                probs.append("the result is copied to %s, not to the hidden pointer" % (d,))
            if s is not T.sym("lab:g" + ret.split()[-1], 32):
                probs.append("the result is copied from %s" % (s,))
            if not isc(n) or n != size(ret):
                probs.append("%s bytes are copied, the structure has %d" % (n, size(ret)))
    probs += exitprobs(m)
    if st.user.get("badpatch"):
        probs.append("frame size text: " + st.user["badpatch"])
    return text, sorted(set(probs)), m.loc


def prolog(m):
    """what the function's first stores put into the caller's home words"""
    out = {}
    for a, n, v in m.mem.stores:
        if a == "call":
            break
        o = m.spofs(a)
        if o is not None and o >= 0:
            out[o] = v if n == 4 else ("partial", n)
    # the word at 0 is only changed by a callee that was given its address
    m.hiddenload = [T.cat([(T.fn("mem", 8, T.add(32, m.sp0, i), v), 8) for i in reversed(range(4))]) for v in range(m.vcount + 1)]
    m.hiddenload = [m.init["$4"]] + m.hiddenload if out.get(0) is m.init["$4"] else []
    return out


CALLEES = [("g1", ["struct S3"]), ("g2", ["struct SW", "int"]), ("g3", ["int", "struct S5", "int"]), ("g4", ["char", "struct S1", "struct SW", "char*"]),
           ("g5", ["struct SW", "struct SW"]), ("g6", ["union UU"]), ("g7", ["int", "int", "int", "int", "struct S5"]), ("g8", ["struct S2", "int", "int", "int", "int"])]
SIZED = ["struct S1", "struct S2", "struct S3", "struct S5", "struct SW", "union UU"]


def vname(t):
    return "g" + t.split()[-1]


def passing(f, base):
    """calls with structure arguments: every word where the callee reads it"""
    import frames
    for cn, ps in CALLEES:
        args, exp = [], []
        for i, t in enumerate(ps):
            if t in SIZED:
                args.append(vname(t))
                a = T.sym("lab:" + vname(t), 32)
                n = (size(t) + 3) // 4
                exp += [("mem", T.add(32, a, 4 * k)) for k in range(n)]
            else:
                args.append(str(5 + i))
                exp.append(("val", 5 + i))
        for pre, post in (("", ""), ("z = 1 + ", "")):
            text = "void f(void) { int z; %s%s(%s); e(&z); }" % (pre, cn, ", ".join(args))
            sts, h = f.resume(base.fork(), f.lex(text))
            if len(sts) != 1 or sts[0].status != "fin":
                yield text, ["is rejected: %s" % sts[0].status], "v0100/smlrc.c"
                continue
            probs = []
            loc = ""
            try:
                m = machine(sts[0], h, "f")
                loc = m.loc
                c = [c for c in m.calls if c[0] == "lab:" + cn]
                if len(c) != 1 or len(m.calls) != 2:
                    probs.append("%d calls" % len(m.calls))
                else:
                    _, s, regs, slots, _ = c[0]
                    for i, (k, w) in enumerate(exp):
                        if k == "mem":
                            w = T.cat([(T.fn("mem", 8, T.add(32, w, b), 0), 8) for b in reversed(range(4))])
                        have = [("$%d" % (4 + i), regs["$%d" % (4 + i)])] if i < 4 else []
                        have.append(("%d($29)" % (4 * i), slots.get(s + 4 * i)))
                        for where, v in have:
                            if v is not w and not (isc(v) and isc(w) and v == w):
                                probs.append("argument word %d in %s is %s, expected %s" % (i, where, v, w))
                probs += exitprobs(m)
            except Bad as x:
                probs.append(str(x))
            yield text, probs, loc


def returning(f, base):
    """calls of structure functions: hidden pointer to a temporary inside the frame, result copied from it"""
    for t in SIZED:
        for n in range(0, 6):
            args = [str(5 + i) for i in range(n)]
            fnm = "r%s%d" % (t.split()[-1], n)
            for use in ("%s = @", "*p = @", "@", "e(&(%s = @))" if False else "v = @"):
                text = "void f(%s* p) { %s v; int z; e(&v); %s; e(&z); }" % (t, t, (use % vname(t) if "%" in use else use).replace("@", "%s(%s)" % (fnm, ", ".join(args))))
                sts, h = f.resume(base.fork(), f.lex(text))
                if len(sts) != 1 or sts[0].status != "fin":
                    yield text, ["is rejected: %s" % sts[0].status], "v0100/smlrc.c"
                    continue
                probs = []
                loc = ""
                try:
                    m = machine(sts[0], h, "f")
                    loc = m.loc
                    c = [c for c in m.calls if c[0] == "lab:" + fnm]
                    es = [m.spofs(c[2]["$4"]) for c in m.calls if c[0] == "lab:e"]
                    if len(c) != 1 or len(es) != 2:
                        probs.append("%d calls" % len(m.calls))
                    else:
                        _, s, regs, slots, _ = c[0]
                        hid = m.spofs(regs["$4"])
                        if hid is None or not m.base <= hid or hid + size(t) > -8:
                            probs.append("the hidden pointer is %s, not a temporary in the frame" % (regs["$4"],))
                        elif hid < es[0] + size(t) and es[0] < hid + size(t) or hid < es[1] + 4 and es[1] < hid + size(t):
                            probs.append("the result temporary at %d overlaps a variable" % hid)
                        for i in range(1, n + 1):
                            v = regs["$%d" % (4 + i)] if i < 4 else slots.get(s + 4 * i)
                            if v != 4 + i:
                                probs.append("argument %d is %s, expected %d" % (i, v, 4 + i))
                        if "=" in use:
                            if len(m.copies) != 1:
                                probs.append("%d structure copies" % len(m.copies))
                            else:
                                d, sr, k, _ = m.copies[0]
                                if sr is not regs["$4"]:
                                    probs.append("copied from %s, the result is at %s" % (sr, regs["$4"]))
                                if not isc(k) or k != size(t):
                                    probs.append("%s bytes are copied, the structure has %d" % (k, size(t)))
                                if use[0] == "v" and m.spofs(d) != es[0] or use[0] == "%" and d is not T.sym("lab:" + vname(t), 32):
                                    probs.append("copied to %s" % (d,))
                                if use[0] == "*" and not any(d is T.cat([(T.fn("mem", 8, T.add(32, m.sp0, b), v), 8) for b in reversed(range(4))]) for v in range(m.vcount + 1)):
                                    probs.append("copied to %s, not to *p" % (d,))
                    probs += exitprobs(m)
                except Bad as x:
                    probs.append(str(x))
                yield text, probs, loc


# ---------------------------------------------------------------- structure helpers
class Routine(mips.Mips):
    """a run-time routine over symbolic pointers; memory is bytes addressed by (pointer, offset)"""

    def __init__(self, ptrs):
        mips.Mips.__init__(self, emit.Holes())
        self.ptrs = ptrs
        self.bytes = {}
        self.reads = set()

    def where(self, a):
        for p in self.ptrs + [self.sp0]:
            d = T.sub(32, a, p)
            if isc(d):
                return p, sgn(d, 32)
        raise Bad("access to %s" % (a,))

    def load(self, a, n, sg):
        p, o = self.where(a)
        v = []
        for k in range(n):
            self.reads.add((p, o + k))
            v.append(self.bytes.get((p, o + k), T.fn("byte", 8, p, o + k)))
        if n == 4 and o % 4 and p is self.sp0:
            raise Bad("unaligned word at sp%+d" % o)
        x = T.cat([(b, 8) for b in reversed(v)])
        return x if n == 4 else T.sext(8 * n, x, 32) if sg else T.zext(8 * n, x, 32)

    def store(self, a, n, v):
        p, o = self.where(a)
        for k in range(n):
            self.bytes[p, o + k] = T.ext(32, v, 8 * k, 8)

    def jump(self, cond, label):
        if not isc(cond):
            raise Bad("a branch depends on %s" % (cond,))
        if label not in self.index:
            raise Bad("jump to the undefined label %s" % label)
        if cond:
            self.pc = self.index[label]

    def deflabel(self, l):
        self.hi = None

    def go(self, text, label):
        L = [x.split("#", 1)[0].strip() for x in text.split("\n")]
        self.index = {}
        for i, x in enumerate(L):
            if x.endswith(":"):
                if x[:-1] in self.index:
                    raise Bad("label %s is defined twice" % x)
                self.index[x[:-1]] = i
        if label not in self.index:
            raise AnalysisError("routine %s is not emitted" % label)
        self.pc = self.index[label]
        for _ in range(60000):
            if self.pc >= len(L):
                raise Bad("control runs off the end")
            self.line = L[self.pc]
            self.pc += 1
            if self.line.startswith("."):
                raise Bad("control runs into %s" % self.line)
            if self.line:
                self.ins(self.line)
            if self.exits:
                tgt = self.exits[0][0]
                if tgt is not self.init["$31"]:
                    raise Bad("returns to %s" % (tgt,))
                for i in SAVEDREGS:
                    if self.regs["$%d" % i] is not self.init["$%d" % i]:
                        raise Bad("register $%d is changed" % i)
                return
        raise Bad("does not return")


SAVEDREGS = [16, 17, 18, 19, 20, 21, 22, 23, 28, 30]


def helpers(f, base):
    st = base.fork()
    for g, l in (("StructCpyLabel", 900), ("StructPushLabel", 901)):
        st.gset(g, l)
    sts, h = f.run(st, "GenFin", [])
    if len(sts) != 1:
        raise AnalysisError("GenFin: %d paths" % len(sts))
    text = "".join(sts[0].out)
    src, dst = T.sym("src", 32), T.sym("dst", 32)
    for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 100, 255, 256, 257, 1023, 4097):
        m = Routine([src, dst])
        probs = []
        try:
            m.regs["$4"], m.regs["$5"], m.regs["$6"] = n, src, dst
            m.go(text, "$L900")
            want = {(dst, k): T.fn("byte", 8, src, k) for k in range(n)}
            if m.bytes != want:
                probs.append("the destination does not receive exactly the %d bytes of the source" % n)
            if any(p is not src or not 0 <= o < n for p, o in m.reads):
                probs.append("reads outside of the source")
            if m.regs["$2"] is not dst:
                probs.append("returns %s instead of the destination" % (m.regs["$2"],))
            if m.regs["$29"] is not m.sp0:
                probs.append("stack pointer is %s at the return" % (m.regs["$29"],))
        except Bad as x:
            probs.append(str(x))
        yield "structure copy helper, %d bytes" % n, probs
        m = Routine([src])
        R = (n + 3) // 4 * 4
        probs = []
        try:
            m.regs["$4"], m.regs["$5"] = src, n
            m.go(text, "$L901")
            if m.spofs(m.regs["$29"]) != 4 - R:
                probs.append("stack pointer is %s at the return" % (m.regs["$29"],))
            # the caller pushes the word in $2 next
            m.store(T.add(32, m.regs["$29"], 12), 4, m.regs["$2"])
            for k in range(n):
                if m.bytes.get((m.sp0, 16 - R + k)) is not T.fn("byte", 8, src, k):
                    probs.append("byte %d of the structure is not in place" % k)
            if any(p is not m.sp0 or not 16 - R <= o < 16 for p, o in m.bytes):
                probs.append("writes outside of the argument")
            if any(p is src and not 0 <= o < n for p, o in m.reads):
                probs.append("reads outside of the source")
        except Bad as x:
            probs.append(str(x))
        yield "structure push helper, %d bytes" % n, sorted(set(probs))


KINDS = ["", "int i;", "int i, j[40];"]
BODIES = ["fp(x);", "return fp(x);", "q(x);", "return q(x) + 1;", "if (x) fp(1);", "x = x && fp(x);", "x = y ? q(x) : 5;", "lq = q; return lq(x);", "(*fp)(x, 1, 2, 3, 4, 5);", "return tab[y](x);", "hp->m(x);",
          "return fp(q(x));", "return fp(fp(x));", "fn(x);", "if (fn(x)) ;", "gS1 = gS2x;", "gSW = *psw;", "x ? (gS1 = gS2x, 0) : 0;", "return fn(y) + x;", "while (0) ; return fp(y);", "fp();"]


def callers(f, base):
    """functions whose only calls are of one kind still keep the return address and the saved registers"""
    for loc in KINDS:
        for b in BODIES:
            if "return" not in b:
                b += " return x;"
            text = "int f(int x, int y, int (*q)(int), struct SW* psw) { int (*lq)(int); %s %s }" % (loc, b)
            sts, h = f.resume(base.fork(), f.lex("int fn(int); int (*fp)(); int (*tab[4])(int); struct HP { int k; int (*m)(int); }; struct HP* hp; struct S1 gS2x; " + text))
            if len(sts) != 1 or sts[0].status != "fin":
                yield text, ["is rejected: %s" % [x.status for x in sts]], "smlrc.c"
                continue
            m = None
            try:
                m = machine(sts[0], h, "f")
                probs = exitprobs(m)
                if not m.calls and not m.copies:
                    probs.append("no call is made")
            except Bad as x:
                probs = [str(x)]
            yield text, probs, m.loc if m else "smlrc.c"


def functions(r):
    import frames
    r.files = FILES
    f = fe.FE("smlrcm")
    dec = frames.STRUCTS + " void e(void*); " + "".join("%s %s; " % (t, vname(t)) for t in SIZED)
    dec += "".join("int %s(%s); " % (n, ", ".join(frames.declare(t, "a%d" % i) for i, t in enumerate(ps))) for n, ps in CALLEES)
    dec += "".join("%s r%s%d(%s); " % (t, t.split()[-1], n, ", ".join("int a%d" % i for i in range(n)) or "void") for t in SIZED for n in range(6)) + "@here"
    base = f.base([], dec)
    jobs = []
    for n, ps, tree in frames.layouts("seg32"):
        for ret in ("void", "struct S3", "struct SW") if r.thorough or n.startswith(("param", "many")) else ("void",):
            jobs.append(("layout", n, ps, tree, ret))
    for k in range(0, 7):
        for ret in ("void", "struct S1", "struct SW", "union UU"):
            jobs.append(("layout", "params%d" % k, ["int"] * k, [], ret))

    def one(j):
        f.covered = set()
        return check_layout(f, base, *j[1:]), f.covered
    cov = set()
    for j, ((text, probs, loc), c) in zip(jobs, par.pmap(one, jobs)):
        cov |= c
        r.count("frame_layouts")
        r.sample(text[:160]) if r.cover["frame_layouts"] % 37 == 1 else None
        for p in probs:
            r.violation("mips:%s:%s:%s" % (j[1], j[4], p[:60]), "v0100/%s" % loc, "%s: %s" % (text, p))
    for what, gen in (("structure_calls", passing(f, base)), ("structure_results", returning(f, base)), ("callers", callers(f, base))):
        for text, probs, loc in gen:
            r.count(what)
            for p in probs:
                r.violation("mips:%s:%s" % (text, p[:60]), "v0100/%s" % loc, "%s: %s" % (text, p))
    for text, probs in helpers(f, base):
        r.count("helper_runs")
        for p in probs:
            r.violation("mips:%s:%s" % (text, p[:60]), "v0100/cgmips.c GenFin", "%s: %s" % (text, p))
    cov |= f.covered
    r.cover["functions"] = sorted({x for x, b in cov})
    r.rule("MIPS frames and structures. Function definitions with every parameter and local variable type, nested blocks, structure parameters, arguments and results are "
           "analysed through the compiler's IR into assembly; the values passed to an opaque callee show where each variable lives. Parameters must be where a caller puts them "
           "(first four words in $4-$7 with home words, the rest above), live locals disjoint, aligned and inside the frame, callee-saved registers and the stack pointer restored, "
           "structure arguments and results complete; the copy and push routines of GenFin() are followed instruction by instruction with symbolic addresses and bytes.")
    r.assume += ASSUME + ["helper routines are followed for the listed sizes (1..9 and both sides of 256, 4096)"]
    r.need("frame_layouts", 200)
    r.need("structure_calls", 16)
    r.need("structure_results", 100)
    r.need("helper_runs", 32)
    r.need("callers", 60)


def flow(r):
    """statements: the same product as for the x86 models (stmtflow)"""
    r.files = FILES
    import stmtflow as sf
    import stmt

    class Flow(sf.Flow):
        def __init__(self, f):
            self.f, self.model = f, "mips"
            self.st = f.base([], sf.DECL % "float f1(void); float f2(void);")
    f = fe.FE("smlrcm")
    fl = Flow(f)
    jobs = [("%s/%s" % (ln, cn), s, None) for cn, c in sf.conds("mips") for ln, s in sf.loops(c)] + list(sf.shapes("mips"))

    def one(j):
        n, s, ret = j
        f.covered = set()
        text = "%s f(void) %s" % (ret or "void", sf.rends(s))
        sts, h = fl.compile(text)
        if len(sts) != 1 or sts[0].status != "fin":
            return text, [("is rejected: %s" % [x.status for x in sts], "v0100/smlrc.c")], 0, f.covered
        m = None
        k = 0
        try:
            m = mips.function_machine(h, sts[0], "f")
            for rl in (False, True):
                ref = sf.Ref(m.W, rl)
                entry = ref.build(s)
                msg, m2, k = stmt.compare(m.fork(), ref, entry, ret is None)
                if not msg or "fcmp" not in str(s) and "frel" not in str(s):
                    break
        except Bad as x:
            return text, [(str(x), m.locs[m.pc - 1] if m else "v0100/smlrc.c")], k, f.covered
        if msg:
            pc = max(0, min(m2.pc - 1, len(m2.locs) - 1))
            return text, [(msg + "; at line %d: %s" % (pc + 1, m2.L[pc]), m2.locs[pc])], k, f.covered
        return text, [], k, f.covered
    cov = set()
    for j, (text, probs, k, c) in zip(jobs, par.pmap(one, jobs)):
        cov |= c
        r.count("functions_compiled")
        r.count("product_states", k)
        r.sample(text) if r.cover["functions_compiled"] % 211 == 1 else None
        for msg, w in probs:
            r.violation("mips:%s" % j[0], w if str(w).startswith("v0100") else "v0100/%s" % w, "%s: %s" % (text, msg))
    r.cover["functions"] = sorted(set(r.cover.get("functions", [])) | {x for x, b in cov})
    r.rule("MIPS statements. Each function built from the statement grammar (loops, if, switch, goto, break, continue, return, short circuits, every controlling-expression kind) is "
           "compiled by abstract interpretation; the product of its assembly (MIPS transfer functions, engine/mips.py) with an independent reference control-flow graph must agree on every "
           "call, branch condition and returned value along all paths, and restore the stack and saved registers at every return.")
    r.assume += ASSUME
    r.need("functions_compiled", 850)
    r.need("product_states", 20000)


def data(r):
    import datainit
    r.files = FILES
    datainit.mips(r)
    r.rule("MIPS data. Abstract interpretation of the declaration and initialiser parser with cgmips.c's emitters, over declarations with symbolic constants: the directives are read back as bytes, "
           "addresses and alignments and compared with C's object layout and brace-elision rules; uninitialised objects must be zero-filled with the right size, alignment and linkage.")
    r.assume += ["the assembler places .half and .word where they are written (no automatic alignment), as RetroBSD's does"]
