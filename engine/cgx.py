"""Residual-template analysis of the x86 code generator (cgx86.c).

For every partition (memory model x RPN shape) the generator is analysed by
the specialising abstract interpreter; the residual assembly is given its
meaning by x86.py and compared with the meaning of the RPN expression.
"""
import sys, itertools
import terms as T
from terms import isc, mask, sgn
import build, sai
from sai import P, F, State, Interp, AnalysisError
import emit, x86
from x86 import Bad

MODELS = {"seg16": "-seg16", "seg32": "-seg32", "huge": "-huge", "unreal": "-unreal"}
IDENTS = ["va", "vb", "fn1", "77"]


class Den:
    """meaning of an RPN expression over the same value numbers"""

    def __init__(self, cg, m):
        self.cg = cg
        self.m = m          # an x86.X86 in its initial state (memory, bp, ds)
        self.model = m.model
        self.W = m.W
        self.stores = []
        self.calls = []
        self.ncalls = 0
        self.v = 0

    # addresses
    def lab(self, name):
        n = ("L" + name) if name[0].isdigit() else "_" + name
        return T.trunc(32, T.sym("lab:" + n, 32), self.W)

    def local(self, ofs):
        """value of the address of a local"""
        m = self.m
        if self.W == 16:
            return T.add(16, T.ext(32, m.regs["ebp"], 0, 16), T.ext(32, ofs, 0, 16) if not isc(ofs) else ofs & 0xffff)
        if self.model == "seg32":
            return T.add(32, m.regs["ebp"], ofs)
        base = T.shl(32, T.zext(16, m.segs["ss"], 32), 4)
        return T.add(32, T.add(32, base, m.regs["ebp"]), ofs)

    def key(self, p):
        """memory location designated by pointer value p"""
        if self.model == "seg16":
            return T.zext(16, p, 32)
        if self.model == "huge":
            # locals are reached through ss:bp
            if self._islocal(p):
                return p
            return T.zext(20, T.ext(32, p, 0, 20), 32)
        return p

    def _islocal(self, p):
        if isc(p) or p.op != "lin":
            return False
        at = [a for a, k in p.args[0] if k == 1]
        return self.m.regs["ebp"] in at and T.shl(32, T.zext(16, self.m.segs["ss"], 32), 4) in at

    def load(self, p, sz):
        n = abs(sz)
        k = self.key(p)
        raw = T.cat([(self._byte(T.add(32, k, i)), 8) for i in reversed(range(n))])
        return self.widen(raw, sz)

    def _byte(self, k):
        for sk, sn, sv in reversed(self.stores):
            d = T.sub(32, k, sk)
            if isc(d) and d < sn:
                return T.ext(sn * 8, sv, d * 8, 8)
        return T.fn("mem", 8, k, self.v)

    def widen(self, raw, sz):
        n = abs(sz) * 8
        if n == self.W:
            return raw
        return T.sext(n, raw, self.W) if sz < 0 else T.zext(n, raw, self.W)

    def store(self, p, sz, v):
        n = abs(sz)
        v = T.ext(self.W, v, 0, n * 8)
        self.stores.append((self.key(p), n, v))
        return self.widen(v, sz)

    def b(self, c):
        return T.zext(1, c, self.W)

    def binop(self, op, a, b):
        W = self.W
        if op in ("+", "add"):
            return T.add(W, a, b)
        if op == "-":
            return T.sub(W, a, b)
        if op == "*":
            return T.mul(W, a, b)
        if op == "/":
            return T.sdiv(W, a, b)
        if op == "u/":
            return T.udiv(W, a, b)
        if op == "%":
            return T.srem(W, a, b)
        if op == "u%":
            return T.urem(W, a, b)
        if op in ("<<", ">>", "u>>"):
            c = T.ext(W, b, 0, 8)
            return x86.shift({"<<": "shl", ">>": "sar", "u>>": "shr"}[op], W, a, c)
        if op == "&":
            return T.and_(W, a, b)
        if op == "^":
            return T.xor(W, a, b)
        if op == "|":
            return T.or_(W, a, b)
        p = {"<": "slt", ">": "sgt", "<=": "sle", ">=": "sge", "==": "eq", "!=": "ne",
             "u<": "ult", "u>": "ugt", "u<=": "ule", "u>=": "uge"}[op]
        return self.b(T.cmp_(p, W, a, b))


class CG:
    def __init__(self, unit="smlrc", defs=()):
        self.M = build.load(unit, defs)
        self.t = build.Toks(self.M)
        t = self.t
        self.base = {}
        self.optables()
        self.covered = set()
        self.names = {}

    def optables(self):
        t = self.t
        self.BIN = {
            ord("+"): "+", ord("-"): "-", ord("*"): "*", ord("/"): "/", t.tokUDiv: "u/", ord("%"): "%", t.tokUMod: "u%",
            t.tokLShift: "<<", t.tokRShift: ">>", t.tokURShift: "u>>", ord("&"): "&", ord("^"): "^", ord("|"): "|",
            ord("<"): "<", ord(">"): ">", t.tokLEQ: "<=", t.tokGEQ: ">=", t.tokEQ: "==", t.tokNEQ: "!=",
            t.tokULess: "u<", t.tokUGreater: "u>", t.tokULEQ: "u<=", t.tokUGEQ: "u>=",
        }
        self.ASG = {
            ord("="): "=", t.tokAssignAdd: "+", t.tokAssignSub: "-", t.tokAssignMul: "*", t.tokAssignDiv: "/",
            t.tokAssignUDiv: "u/", t.tokAssignMod: "%", t.tokAssignUMod: "u%", t.tokAssignLSh: "<<",
            t.tokAssignRSh: ">>", t.tokAssignURSh: "u>>", t.tokAssignAnd: "&", t.tokAssignXor: "^", t.tokAssignOr: "|",
        }
        self.REL = [ord("<"), ord(">"), t.tokLEQ, t.tokGEQ, t.tokEQ, t.tokNEQ, t.tokULess, t.tokUGreater, t.tokULEQ, t.tokUGEQ]

    def init(self, model):
        """abstract state after target selection"""
        if model in self.base:
            return self.base[model].fork()
        holes = emit.Holes()
        I = Interp(self.M, emit.text_hooks(holes))
        st = State(self.M)
        st = self.one(I.run(st, "GenInit", []))
        if model in MODELS:
            opt = st.newobj("opt", 16, "zero")
            st.putstr(opt, MODELS[model])
            argv = st.newobj("argv", 16, "zero")
            st.store(argv, 8, opt)
            idx = st.newobj("idx", 4, "zero")
            st.store(idx, 4, 0)
            st = self.one(I.run(st, "GenInitParams", [1, argv, idx]))
            if st.ret != 1:
                raise AnalysisError("option %s not accepted by GenInitParams" % MODELS[model])
        st = self.one(I.run(st, "GenInitFinalize", []))
        st.gset("GenExterns", 0)
        st.gset("LabelCnt", 1000)
        off = 1
        self.ident = {}
        for n in IDENTS:
            # IdentTable entry: length byte + asciiz is not needed by the generator
            st.putstr(P("IdentTable", off), n)
            self.ident[n] = off
            off += len(n) + 2
        st.gset("IdentTableLen", off)
        st.ret = None
        st.status = None
        st.out = []
        self.covered |= I.covered
        self.base[model] = st
        return st.fork()

    def one(self, sts):
        if len(sts) != 1 or sts[0].status != "ret":
            raise AnalysisError("unexpected outcome %r" % [(s.status) for s in sts])
        s = sts[0]
        s.status = None
        return s

    def gen(self, model, rpn, setup=None, entry="GenExpr", extra_hooks=None, args=()):
        """residual templates of one RPN shape: list of (state, holes)"""
        st = self.init(model)
        st.out = []
        if rpn is not None:
            for i, (tk, v) in enumerate(rpn):
                st.store(P("stack", 8 * i), 4, tk)
                st.store(P("stack", 8 * i + 4), 4, v if not isc(v) else v & mask(32))
            st.gset("sp", len(rpn))
        if setup:
            setup(st)
        holes = emit.Holes()
        hooks = emit.text_hooks(holes)

        def h_err(I, s, a, line):
            s.status = "error:%r" % (a[0],)
            return sai.END
        hooks["errorInternal"] = h_err
        hooks["error"] = h_err
        if extra_hooks:
            hooks.update(extra_hooks(holes))
        I = Interp(self.M, hooks, maxsteps=400000)
        sts = I.run(st, entry, list(args))
        self.covered |= I.covered
        return sts, holes

    # ---- meaning of RPN
    def value(self, d, rpn):
        """returns (value, info) by structural recursion from the right"""
        v, rest = self._val(d, list(rpn))
        if rest:
            raise AnalysisError("leftover RPN")
        return v

    def _parse(self, r):
        """RPN -> tree, consuming from the right"""
        t = self.t
        tk, v = r.pop()
        if tk in (t.tokNumInt, t.tokNumUint):
            return ("num", v)
        if tk == t.tokIdent:
            return ("ident", self.identname(v))
        if tk == t.tokLocalOfs:
            return ("local", v)
        if tk == t.tokUnaryStar:
            return ("deref", v, self._parse(r))
        if tk in (ord("~"), t.tokUnaryMinus, t.tokUnaryPlus, t.tok_Bool, t.tokSChar, t.tokUChar,
                  t.tokShort, t.tokUShort, t.tokVoid):
            return ("un", tk, self._parse(r))
        if tk in (t.tokInc, t.tokDec, t.tokPostInc, t.tokPostDec):
            return ("inc", tk, v, self._parse(r))
        if tk in (t.tokPostAdd, t.tokPostSub):
            n = self._parse(r)
            return ("postadd", tk, v, self._parse(r), n)
        if tk in self.ASG:
            b = self._parse(r)
            return ("asg", tk, v, self._parse(r), b)
        if tk in self.BIN:
            b = self._parse(r)
            return ("bin", tk, self._parse(r), b)
        if tk == t.tokComma:
            b = self._parse(r)
            return ("comma", self._parse(r), b)
        if tk == t.tokShortCirc:
            return ("sc", v, self._parse(r))
        if tk == t.tokGoto:
            return ("goto", v, self._parse(r))
        if tk in (t.tokLogAnd, t.tokLogOr):
            b = self._parse(r)
            return ("log", tk, v, self._parse(r), b)
        if tk == ord(")"):
            parts = []
            cal = self._parse(r)
            args = []
            while r[-1][0] != ord("("):
                if r[-1][0] == ord(","):
                    r.pop()
                args.append(self._parse(r))
            r.pop()
            return ("call", v, cal, list(reversed(args)))
        raise AnalysisError("RPN token %r" % tk)

    def identname(self, v):
        return [n for n, o in self.ident.items() if o == v][0]

    def tree(self, rpn):
        r = list(rpn)
        x = self._parse(r)
        if r:
            raise AnalysisError("leftover RPN")
        return x

    def ev(self, d, x):
        t = self.t
        W = d.W
        k = x[0]
        if k == "num":
            return T.ext(32, x[1], 0, W) if not isc(x[1]) else x[1] & mask(W)
        if k == "ident":
            return d.lab(x[1])
        if k == "local":
            return d.local(x[1])
        if k == "deref":
            return d.load(self.ev(d, x[2]), x[1])
        if k == "un":
            a = self.ev(d, x[2])
            tk = x[1]
            if tk == ord("~"):
                return T.not_(W, a)
            if tk == t.tokUnaryMinus:
                return T.neg(W, a)
            if tk in (t.tokUnaryPlus,):
                return a
            if tk == t.tokVoid:
                return a
            if tk == t.tok_Bool:
                return d.b(T.cmp_("ne", W, a, 0))
            sz = {t.tokSChar: -1, t.tokUChar: 1, t.tokShort: -2, t.tokUShort: 2}[tk]
            return d.widen(T.ext(W, a, 0, abs(sz) * 8), sz)
        if k == "inc":
            p = self.ev(d, x[3])
            old = d.load(p, x[2])
            new = T.add(W, old, 1 if x[1] in (t.tokInc, t.tokPostInc) else mask(W))
            r = d.store(p, x[2], new)
            return r if x[1] in (t.tokInc, t.tokDec) else old
        if k == "postadd":
            p = self.ev(d, x[3])
            n = self.ev(d, x[4])
            old = d.load(p, x[2])
            new = T.add(W, old, n) if x[1] == t.tokPostAdd else T.sub(W, old, n)
            d.store(p, x[2], new)
            return old
        if k == "asg":
            # the left operand's address is evaluated first
            p = self.ev(d, x[3])
            if x[1] == ord("="):
                b = self.ev(d, x[4])
                return d.store(p, x[2], b)
            b = self.ev(d, x[4])
            a = d.load(p, x[2])
            return d.store(p, x[2], d.binop(self.ASG[x[1]], a, b))
        if k == "bin":
            a = self.ev(d, x[2])
            b = self.ev(d, x[3])
            return d.binop(self.BIN[x[1]], a, b)
        if k == "comma":
            self.ev(d, x[1])
            return self.ev(d, x[2])
        if k == "log":
            # left: sc (&& / ||) or goto (?:)
            l = x[3]
            if l[0] == "sc":
                a = self.ev(d, l[2])
                lab = l[1]
                c = T.cmp_("eq", W, a, 0)
                if lab < 0:
                    c = T.lnot(c)
                n = len(d.stores)
                b = self.ev(d, x[4])
                if len(d.stores) != n:
                    d.conds = getattr(d, "conds", [])
                    d.conds.append((T.lnot(c), d.stores[n:]))
                    d.stores = d.stores[:n]
                return T.ite(W, c, a, b)
            if l[0] == "cond":
                pass
            raise AnalysisError("log shape")
        if k == "call":
            args = [self.ev(d, a) for a in x[3]]
            cal = x[2]
            if cal[0] == "ident":
                tgt = "lab:_" + cal[1]
            else:
                tgt = self.ev(d, cal)
                if d.model in ("huge", "unreal"):
                    tgt = T.zext(20, T.ext(32, tgt, 0, 20), 32)
            d.ncalls += 1
            d.calls.append((tgt, args))
            d.v += 1
            r = T.sym("call%d.eax" % d.ncalls, 32)
            return T.ext(32, r, 0, W)
        raise AnalysisError("tree %r" % (k,))


def check_expr(cg, model, rpn, jump=None):
    """compare templates with the denotation; returns list of problem strings"""
    probs = []
    sts, holes = cg.gen(model, rpn)
    t = cg.t
    body = list(rpn)
    jmp = None
    if body[-1][0] in (t.tokIf, t.tokIfNot):
        jmp = body.pop()
    elif body[-1][0] == t.tokReturn:
        body.pop()
    for st in sts:
        text = "".join(st.out)
        lst = None
        if st.status != "ret":
            probs.append(("no code is generated (%s)" % st.status, lst, st))
            continue
        m = x86.X86(model, holes)
        d = Den(cg, x86.X86(model, holes))
        try:
            want = cg.ev(d, cg.tree(body))
            run(m, text)
        except Bad as e:
            probs.append(("malformed template: %s" % e, lst, st))
            continue
        S = (lambda v: T.subst(v, st.eqs)) if st.eqs else (lambda v: v)
        A = "ax" if m.W == 16 else "eax"
        got = m.reg(A)[0]
        # narrow equalities learnt on the branch (e.g. low bits of a constant are 0)
        if jmp is not None:
            exp = T.cmp_("ne", m.W, want, 0) if jmp[0] == t.tokIf else T.cmp_("eq", m.W, want, 0)
            L = "L%d" % jmp[1]
            pend = m.pending.pop(L, [])
            if len(pend) != 1:
                probs.append(("no conditional jump to the target label", lst, st))
                continue
            if not same(S(pend[0][0]), S(exp), st):
                probs.append(("jump condition is %s, expected %s" % (S(pend[0][0]), S(exp)), lst, st))
        elif isvoid(cg, body):
            pass
        elif not same(S(got), S(want), st):
            probs.append(("value in %s is %s, expected %s" % (A, S(got), S(want)), lst, st))
        gs = effects([(S(a), n, S(v)) for a, n, v in m.mem.stores])
        ws = effects([(S(a), n, S(v)) for a, n, v in d.stores])
        if gs != ws and not sameeff(gs, ws, st):
            probs.append(("memory effect is %s, expected %s" % (gs, ws), lst, st))
        gc = getattr(m, "condstores", [])
        wc = getattr(d, "conds", [])
        if [(S(c), [(S(a), n, S(v)) for a, n, v in s]) for c, s in gc] != [(S(c), [(S(a), n, S(v)) for a, n, v in s]) for c, s in wc]:
            probs.append(("conditional memory effect is %s, expected %s" % (gc, wc), lst, st))
        if m.stack:
            probs.append(("expression stack is not balanced: %d slots left" % len(m.stack), lst, st))
        if m.pending:
            probs.append(("jump to an undefined label %s" % list(m.pending), lst, st))
        if m.regs["ebp"] is not d.m.regs["ebp"] or m.segs["ss"] is not d.m.segs["ss"]:
            probs.append(("frame pointer not preserved", lst, st))
        if model != "huge" and (m.segs["ds"] is not d.m.segs["ds"] and m.segs["ds"] != d.m.segs["ds"]):
            probs.append(("data segment not preserved", lst, st))
        if len(m.calls) != len(d.calls):
            probs.append(("%d calls, expected %d" % (len(m.calls), len(d.calls)), lst, st))
        else:
            for (tgt, stk, alive), (wt, wargs) in zip(m.calls, d.calls):
                tg = tgt if isinstance(tgt, str) else S(tgt)
                wt = wt if isinstance(wt, str) else S(wt)
                if tg is not wt and tg != wt:
                    probs.append(("call target %s, expected %s" % (tg, wt), lst, st))
                have = [(S(v) if v is not None else None, w) for v, w in stk]
                if len(wargs):
                    have = have[-len(wargs):]
                else:
                    have = []
                exp = [(S(v), m.W) for v in wargs]
                if have != exp:
                    probs.append(("call arguments %s, expected %s" % (have, exp), lst, st))
    return [(m, emit.listing(st, holes), sites(st)) for m, _, st in probs]


def sites(st):
    """emission call sites on the analysed path"""
    out = []
    for o in st.out:
        l = getattr(o, 'loc', '')
        if l and l not in out:
            out.append(l)
    return out


def effects(st):
    """drop stores that leave the memory unchanged"""
    out = []
    for a, n, v in st:
        cur = []
        for i in reversed(range(n)):
            b = T.fn("mem", 8, T.add(32, a, i), 0)
            for sk, sn, sv in reversed(out):
                dlt = T.sub(32, T.add(32, a, i), sk)
                if isc(dlt) and dlt < sn:
                    b = T.ext(sn * 8, sv, dlt * 8, 8)
                    break
            cur.append((b, 8))
        c = T.cat(cur)
        if c is v or (isc(c) and c == v):
            continue
        out.append((a, n, v))
    return out


def isvoid(cg, body):
    return False


def sameeff(gs, ws, st):
    return T.agreeall(gs, ws, st.facts.items())


def same(a, b, st=None):
    return T.agree(a, b, st.facts.items() if st is not None else ())


def run(m, text):
    m.run(text)


def printable(text, holes):
    def rep(mm):
        v, w, s = holes.vals[int(mm.group(1))]
        return "<%s>" % (v,)
    return emit.NUM.sub(rep, text)
