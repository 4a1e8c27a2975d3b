"""C semantics of typed expression trees, and the meaning of the RPN exprval()
produces, over the same value numbers."""
import terms as T
from terms import isc, mask, sgn
import cgx, x86, emit
from sai import AnalysisError

FPRT = {"__floatsisf": "i2f", "__floatunsisf": "u2f", "__fixsfsi": "f2i", "__fixunssfsi": "f2u", "__addsf3": "fadd",
        "__subsf3": "fsub", "__negsf2": "fneg", "__mulsf3": "fmul", "__divsf3": "fdiv", "__lesf2": "cmpL", "__gesf2": "cmpG"}


class Invalid(Exception):
    """constraint violation"""


class Unspecified(Exception):
    """the C standard leaves the case open: nothing to check"""


# -- canonical float operations
def fp1(op, a):
    return T.fn(op, 32, a)


def fp2(op, a, b):
    if op in ("fadd", "fmul"):          # commutative
        a, b = sorted((a, b), key=lambda x: (str(x)))
    return T.fn(op, 32, a, b)


def isfcmp(t):
    return not isc(t) and t.op == "fn" and t.args[0] in ("cmpL", "cmpG")


def fpred(p, a, b):
    """1-bit float predicate; gt/ge are turned around"""
    if p in (">", ">="):
        p, a, b = {">": "<", ">=": "<="}[p], b, a
    if p in ("==", "!="):
        a, b = sorted((a, b), key=lambda x: str(x))
        r = T.fn("feq", 1, a, b)
        return r if p == "==" else T.lnot(r)
    return T.fn("f" + p, 1, a, b)


def cmp_fcmp(p, t):
    """(a <=> b) p 0, as a predicate on a and b"""
    kind, a, b = t.args[0], t.args[1], t.args[2]
    un = 1 if kind == "cmpL" else -1     # the result for unordered operands
    if p in ("==", "!="):
        return fpred(p, a, b)
    holds = {"<": un < 0, "<=": un <= 0, ">": un > 0, ">=": un >= 0}[p]
    if not holds:
        return fpred(p, a, b)
    neg = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[p]
    return T.lnot(fpred(neg, a, b))


def fcm(x):
    """host comparison fcmp(l, r, unordered result) or the run-time comparison"""
    if isc(x) or x.op != "fn":
        return None
    if x.args[0] in ("cmpL", "cmpG"):
        return x
    if x.args[0] == "fcmp" and isc(x.args[3]):
        u = sgn(x.args[3], 32)
        if u in (1, -1):
            return T.fn("cmpL" if u == 1 else "cmpG", 32, x.args[1], x.args[2])
    return None


def topbit(a, known):
    """value of the sign bit of a, if the path decides it"""
    if isc(a):
        return a >> 63 & 0
    b = T.ext(a.w, a, a.w - 1, 1)
    if isc(b):
        return b
    if b in known:
        return known[b]
    k = T.cmp_("ult", a.w, a, 1 << (a.w - 1))
    if k in known:
        return 1 - known[k]
    return known.get(T.cmp_("slt", a.w, a, 0))


def rewrite(t, W, memo, known=None):
    """host operations of the constant folder -> canonical machine-word and float operations"""
    if isc(t):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if known and t in known:
        return known[t]
    R = lambda x: rewrite(x, W, memo, known)
    op, w, a = t.op, t.w, t.args
    if op == "sym":
        r = t
    elif op == "lin":
        r = a[1]
        for x, k in a[0]:
            r = T.add(w, r, T.mulc(w, R(x), k))
    elif op in ("shl", "lshr", "ashr"):
        # counts outside 0..W-1 have no specified result
        c = R(a[1])
        k = 4 if W == 16 else 5
        if not isc(c):
            c = T.zext(k, T.ext(c.w, c, 0, k), 8)
        x = R(a[0])
        if op == "ashr" and known and not isc(x) and topbit(x, known) == 0:
            op = "lshr"
        r = getattr(T, op)(w, x, c)
    elif op in ("mul", "udiv", "sdiv", "urem", "srem"):
        r = getattr(T, op)(w, R(a[0]), R(a[1]))
    elif op in ("and", "or", "xor"):
        f = getattr(T, op + "_" if op != "xor" else op)
        r = R(a[0])
        for x in a[1:]:
            r = f(w, r, R(x))
        if op == "or":
            r = signfill(r, W, known)
    elif op == "cat":
        r = T.cat([(R(v), pw) for v, pw in a])
    elif op == "ext":
        x = R(a[0])
        if w == 1 and a[1] == 0 and isfcmp(x):      # -1, 0 or 1
            r = cmp_fcmp("!=", x)
        else:
            r = low(x, a[0].w, a[1], w)
    elif op == "sext":
        x = R(a[0])
        b = topbit(x, known) if known and not isc(x) else None
        r = T.sext(a[0].w, x, w) if b is None else T.cat([(mask(w - a[0].w) if b else 0, w - a[0].w), (x, a[0].w)])
    elif op == "signs":
        x = R(a[0])
        b = topbit(x, known) if known and not isc(x) else None
        r = T.signs(a[0].w, x, w) if b is None else (mask(w) if b else 0)
    elif op == "cmp":
        p, x, y, cw = a
        x, y = R(x), R(y)
        fx, fy = fcm(x), fcm(y)
        if fx is not None and isc(y) and p in ("slt", "eq"):
            k = sgn(y, cw)
            if p == "eq" and k == 0:
                r = cmp_fcmp("==", fx)
            elif p == "slt" and k in (0, 1):
                r = cmp_fcmp("<" if k == 0 else "<=", fx)
        elif fy is not None and isc(x) and p == "slt" and sgn(x, cw) in (0, -1):
            r = cmp_fcmp(">" if x == 0 else ">=", fy)
        if r is None:
            r = T.cmp_(p, cw, x, y)
    elif op == "not":
        r = T.lnot(R(a[0]))
    elif op == "ite":
        r = T.ite(w, R(a[0]), R(a[1]), R(a[2]))
    elif op == "fn":
        x = [R(v) if isinstance(v, T.Term) else v for v in a[1:]]
        if a[0] in ("fadd", "fmul"):
            r = fp2(a[0], *x)
        elif a[0] in ("fsub", "fdiv"):
            r = fp2(a[0], *x)
        else:
            r = T.mk("fn", w, a[0], *x)
    else:
        r = t
    if known and not isc(r) and r in known:
        r = known[r]
    memo[t] = r
    return r


def signfill(r, W, known=None):
    """(a >>u c) | ((a < 0) * (~0 << (W - c)))  is the arithmetic shift of a, for c in 1..W-1"""
    if isc(r) or r.op != "or" or len(r.args) != 2:
        return r
    w = r.w
    for s, m in (r.args, r.args[::-1]):
        if isc(s) or isc(m) or s.op != "lshr":
            continue
        if m.op == "shl" and m.args[0] == mask(w) and known and topbit(s.args[0], known) == 1 and w == W and fillcount(m.args[1], s.args[1], W):
            return T.ashr(w, *s.args)
        if m.op != "mul":
            continue
        for b, f in (m.args, m.args[::-1]):
            if isc(b) or isc(f) or f.op != "shl" or f.args[0] != mask(w):
                continue
            p = bit(w, b)
            a, c = s.args
            x = a if W == w else T.ext(w, a, 0, W)
            if isc(c) or p is None or (W != w and T.zext(W, x, w) is not a):
                continue
            n = 5 if w == 32 else 4
            k = T.ext(f.args[1].w, f.args[1], 0, n)
            if T.add(n, k, T.ext(c.w, c, 0, n)) == W % w and p is T.cmp_("slt", W, x, 0):
                return T.ashr(w, x if W == w else T.sext(W, x, w), c)
    return r


def fillcount(m, c, W):
    """m is W - c"""
    if isc(m) or isc(c):
        return False
    n = 5 if W == 32 else 4
    return T.add(n, T.ext(m.w, m, 0, n), T.ext(c.w, c, 0, n)) == W % (1 << n)


def low(x, fw, lo, n):
    """low bits of a host operation on extended narrow operands"""
    if lo == 0 and not isc(x) and n < fw:
        if x.op in ("sdiv", "srem", "udiv", "urem"):
            a, b = x.args
            e = fits(a, fw, n), fits(b, fw, n)
            k = "s" if x.op[0] == "s" else "z"
            if all(k in q for q in e):
                return getattr(T, x.op)(n, T.ext(fw, a, 0, n), T.ext(fw, b, 0, n))
        if x.op in ("ashr", "lshr"):
            q = fits(x.args[0], fw, n)
            k = "s" if x.op == "ashr" else "z"
            if k in q:
                return getattr(T, x.op)(n, T.ext(fw, x.args[0], 0, n), x.args[1])
    return T.ext(fw, x, lo, n)


def fits(a, fw, n):
    """which extensions of its low n bits give a"""
    if isc(a):
        r = ""
        if a == a & mask(n):
            r += "z"
        if sgn(a, fw) == sgn(a & mask(n), n):
            r += "s"
        return r
    lo = T.ext(fw, a, 0, n)
    r = ""
    if T.zext(n, lo, fw) is a:
        r += "z"
    if T.sext(n, lo, fw) is a:
        r += "s"
    return r


class Den(cgx.Den):
    """adds conditional values, float run-time calls and struct copies"""

    def binop(self, op, a, b):
        W = self.W
        if op == "&" and (isfcmp(a) and b == 1 or isfcmp(b) and a == 1):
            return self.b(cmp_fcmp("!=", a if isfcmp(a) else b))
        if op in ("<", ">", "<=", ">=", "==", "!="):
            z = T.fn("i2f", 32, 0)
            if isfcmp(a) and isc(b) and b == 0:
                return self.b(cmp_fcmp(op, a))
        return cgx.Den.binop(self, op, a, b)

    def nz(self, a):
        if isfcmp(a):
            return cmp_fcmp("!=", a)
        return T.cmp_("ne", self.W, a, 0)


def bit(W, a):
    """the predicate a 0/1 value stands for, or None"""
    if isc(a):
        return a if a in (0, 1) else None
    if a.op == "cat" and len(a.args) == 2 and a.args[0] == (0, W - 1):
        return a.args[1][0]
    return None


class Sem(cgx.CG):
    """denotation of RPN produced by the front end"""

    def __init__(self, fe, st, scpy=None, spush=None):
        self.M = fe.M
        self.t = fe.t
        self.fe = fe
        self.st = st
        cgx.CG.optables(self)
        self.labels = []

    def name(self, v):
        return self.fe.ident(self.st, v)

    def parse(self, rpn):
        return self.tree(rpn)

    def identname(self, v):
        return self.fe.ident(self.st, v)

    def ev(self, d, x):
        t = self.t
        W = d.W
        k = x[0]
        if k == "un" and x[1] == t.tok_Bool:
            return d.b(d.nz(self.ev(d, x[2])))
        if k == "deref" and x[1] == 0:
            return self.ev(d, x[2])
        if k == "log":
            l, r = x[3], x[4]
            tk, lab = x[1], x[2]
            if l[0] == "sc":
                if l[1] != (lab if tk == t.tokLogAnd else (-lab) & mask(32)) and sgn(l[1], 32) != (lab if tk == t.tokLogAnd else -lab):
                    raise Bad("short-circuit label %s does not match %s" % (l[1], lab))
                self.label(lab)
                a = self.ev(d, l[2])
                skip = T.lnot(d.nz(a)) if tk == t.tokLogAnd else d.nz(a)
                b = self.cond(d, T.lnot(skip), r)
                pa, pb = bit(W, a), bit(W, b)
                if pa is not None and pb is not None:
                    return d.b(T.ite(1, pa, pb, 0) if tk == t.tokLogAnd else T.ite(1, pa, 1, pb))
                return T.ite(W, skip, a if not isfcmp(a) else d.b(d.nz(a)), b)
            if l[0] == "log" and l[3][0] == "sc" and l[4][0] == "goto":
                sc, g = l[3], l[4]
                if sgn(sc[1], 32) != -l[2] or g[1] != lab or tk != t.tokLogAnd or l[1] != t.tokLogAnd:
                    raise Bad("labels of ?: do not match (%s, %s, %s, %s)" % (sc[1], l[2], g[1], lab))
                self.label(lab)
                self.label(l[2])
                c = d.nz(self.ev(d, sc[2]))
                vr = self.cond(d, T.lnot(c), g[2])
                vm = self.cond(d, c, r)
                return T.ite(W, c, vm, vr)
            raise Bad("operand structure of a logical operator")
        if k == "call":
            cal = x[2]
            args = x[3]
            sp = self.st.gget("StructPushLabel")
            n = 0
            for a in args:
                if a[0] == "call" and a[2][0] == "ident" and a[2][1] == str(sp):
                    if len(a[3]) != 2 or a[3][0][0] != "num":
                        raise Bad("size of a structure argument")
                    z = a[3][0][1]
                    n += (z + W // 8 - 1) & -(W // 8)
                else:
                    n += W // 8
            if x[1] != n:
                raise Bad("call releases %s bytes of arguments, %d are pushed" % (x[1], n))
            if cal[0] == "ident" and cal[1] in FPRT:
                op = FPRT[cal[1]]
                v = [self.ev(d, a) for a in args]
                v.reverse()
                n = 1 if op in ("i2f", "u2f", "f2i", "f2u", "fneg") else 2
                if len(v) != n:
                    raise Bad("%s with %d arguments" % (cal[1], len(v)))
                if n == 1:
                    return fp1(op, v[0])
                if op in ("cmpL", "cmpG"):
                    return T.fn(op, 32, v[0], v[1])
                return fp2(op, v[0], v[1])
            if cal[0] == "ident" and cal[1].isdigit():
                lab = int(cal[1])
                v = [self.ev(d, a) for a in args]
                v.reverse()
                if lab == self.st.gget("StructCpyLabel") and len(v) == 3:
                    d.copies.append(tuple(v))       # size, source, destination
                    return v[2]
                if lab == self.st.gget("StructPushLabel") and len(v) == 2:
                    return T.fn("structval", 32, v[1], v[0], d.v)      # size, address
                raise Bad("call of the numbered function %d" % lab)
        if k == "num" and not isc(x[1]):
            return canon(d, T.ext(32, x[1], 0, W))
        return cgx.CG.ev(self, d, x)

    def label(self, l):
        if l in self.labels or not isc(l):
            raise Bad("label %s used twice" % (l,))
        self.labels.append(l)

    def cond(self, d, c, x):
        n = len(d.stores)
        nc, ncp = len(d.calls), len(d.copies)
        v = self.ev(d, x)
        if len(d.stores) != n:
            d.conds.append((c, d.stores[n:]))
            d.stores = d.stores[:n]
        if len(d.calls) != nc:
            d.ccalls.append((c, d.calls[nc:]))
            d.calls = d.calls[:nc]
        if len(d.copies) != ncp:
            d.ccopies.append((c, d.copies[ncp:]))
            d.copies = d.copies[:ncp]
        return v


class Bad(Exception):
    pass


def canon(d, t):
    return rewrite(t, d.W, {})


def newden(model, holes=None):
    m = x86.X86(model, holes)
    d = Den(None, m)
    d.copies = []
    d.conds = []
    d.ccalls = []
    d.ccopies = []
    return d


# ---------------------------------------------------------------- C semantics
INTS = ("char", "schar", "uchar", "short", "ushort", "int", "uint")


class CSem:
    """typed C expressions: ev() -> (type, value); lv() -> (type, address)"""

    rl = False      # evaluation order of binary operands (unspecified in C)

    def __init__(self, d, env, W, structs, csigned=True, facts=None):
        self.d = d
        self.env = env        # name -> (type, address value) | (type, None, asm name)
        self.W = W
        self.structs = structs  # name -> (size, {member: (offset, type)}) or None if incomplete
        self.csigned = csigned
        self.facts = facts

    # sizes
    def sizeof(self, t):
        W = self.W // 8
        if t in ("char", "schar", "uchar"):
            return 1
        if t in ("short", "ushort"):
            return 2
        if t in ("int", "uint"):
            return W
        if t == "float":
            return 4
        if t[0] == "ptr":
            return W
        if t[0] == "arr":
            return t[1] * self.sizeof(t[2])
        if t[0] == "struct":
            s = self.structs.get(t[1])
            if s is None:
                return 0
            return s[0]
        return 0      # void, function

    def ssize(self, t):
        """signed size as used by loads and stores"""
        n = self.sizeof(t)
        if t == "schar" or t == "char" and self.csigned or t == "short" and self.W != 16:
            return -n
        return n

    def isint(self, t):
        return t in INTS

    def promote(self, t):
        if t == "ushort" and self.W == 16:
            return "uint"
        return "int" if t in ("char", "schar", "uchar", "short", "ushort") else t

    def decay(self, t, v):
        if t[0] == "arr" and not isinstance(t, str):
            return ("ptr", t[2]), v
        if t[0] == "fn" and not isinstance(t, str):
            return ("ptr", t), v
        return t, v

    def isptr(self, t):
        return not isinstance(t, str) and t[0] == "ptr"

    def isstruct(self, t):
        return not isinstance(t, str) and t[0] == "struct"

    # conversion of a value
    def conv(self, ft, v, tt):
        W = self.W
        if tt == "float":
            if ft == "float":
                return v
            return fp1("u2f" if ft == "uint" else "i2f", v)
        if ft == "float":
            r = fp1("f2u" if tt == "uint" else "f2i", v)
            return self.narrow(r, tt)
        return self.narrow(v, tt)

    def narrow(self, v, tt):
        n = self.ssize(tt)
        if abs(n) * 8 >= self.W or tt == "void":
            return v
        return self.d.widen(T.ext(self.W, v, 0, abs(n) * 8), n)

    def lval(self, e):
        k = e[0]
        if k == "var":
            t, a = self.env[e[1]][:2]
            return t, a
        if k == "un" and e[1] == "*":
            t, v, c = self.rv(e[2])
            if not self.isptr(t):
                raise Invalid("* of %s" % (t,))
            if not isinstance(t[1], str) and t[1][0] == "fn":
                return t[1], v
            if t[1] == "void" or self.isstruct(t[1]) and self.sizeof(t[1]) == 0:
                raise Invalid("* of pointer to incomplete")
            return t[1], v
        if k == "idx":
            return self.lval(("un", "*", ("bin", "+", e[1], e[2])))
        if k == "mem":          # e.m
            t, a = self.lvalrv(e[1])
            if not self.isstruct(t) or self.sizeof(t) == 0:
                raise Invalid("member of non-struct")
            return self.member(t, a, e[2])
        if k == "arrow":
            t, v, c = self.rv(e[1])
            if not self.isptr(t) or not self.isstruct(t[1]) or self.sizeof(t[1]) == 0:
                raise Invalid("-> of non-struct pointer")
            return self.member(t[1], v, e[2])
        raise Invalid("lvalue")

    def lvalrv(self, e):
        """struct expressions: address of the object"""
        try:
            return self.lval(e)
        except Invalid:
            t, v, c = self.ev(e)
            if self.isstruct(t):
                return t, v
            raise

    def member(self, t, a, m):
        s = self.structs[t[1]]
        if m not in s[1]:
            raise Invalid("no member")
        off, mt = s[1][m]
        return mt, T.add(self.W, a, off)

    def rv(self, e):
        """value after decay: (type, value, const)"""
        t, v, c = self.ev(e)
        t, v = self.decay(t, v)
        return t, v, c

    def ev(self, e):
        """(type, value, isconst)"""
        d, W = self.d, self.W
        k = e[0]
        if k == "ci":
            return "int", T.ext(32, e[1], 0, W), True
        if k == "cu":
            return "uint", T.ext(32, e[1], 0, W), True
        if k == "cf":
            return "float", e[1], True
        if k == "paren":
            return self.ev(e[1])
        if k in ("var", "idx", "mem", "arrow") or k == "un" and e[1] == "*":
            t, a = self.lval(e)
            if isinstance(t, str) or t[0] == "ptr":
                if t == "void":
                    raise Invalid("void object")
                return t, d.load(a, self.ssize(t)), False
            return t, a, False
        if k == "sizeof":
            if e[1][0] == "type":
                t = e[1][1]
            else:
                sv = (list(d.stores), list(d.calls), d.ncalls, d.v, list(d.copies))
                t, v, c = self.ev(e[1])
                d.stores, d.calls, d.ncalls, d.v, d.copies = sv
            n = self.sizeof(t)
            if not isinstance(t, str) and t[0] == "fn":
                raise Unspecified("sizeof a function")
            if n == 0:
                raise Invalid("sizeof incomplete")
            return "uint", n, True
        if k == "un":
            return self.unary(e[1], e[2])
        if k == "cast":
            return self.cast(e[1], e[2])
        if k == "asg":
            return self.assign(e[1], e[2], e[3])
        if k == "inc":
            return self.inc(e[1], e[2])
        if k == "bin":
            return self.binary(e[1], e[2], e[3])
        if k == "comma":
            t0, v0, c0 = self.ev(e[1])
            t, v, c = self.ev(e[2])
            return t, v, c0 and c
        if k == "cond":
            return self.ternary(e[1], e[2], e[3])
        if k == "call":
            return self.callx(e[1], e[2])
        raise AnalysisError("AST %r" % (k,))

    def unary(self, op, e):
        d, W = self.d, self.W
        if op == "&":
            if e[0] == "paren":
                e = e[1]
            t, a = self.lval(e)
            return ("ptr", t), a, False
        if op == "!":
            t, v, c = self.rv(e)
            return "int", d.b(T.lnot(self.truth(t, v))), c and not self.isptr(t)
        t, v, c = self.rv(e)
        if not self.isint(t) and t != "float":
            raise Invalid("operand of unary " + op)
        if t == "float":
            if op == "~":
                raise Invalid("~ float")
            return t, (fp1("fneg", v) if op == "-" else v), c
        t = self.promote(t)
        return t, {"-": lambda: T.neg(W, v), "+": lambda: v, "~": lambda: T.not_(W, v)}[op](), c

    def truth(self, t, v):
        if t == "void" or self.isstruct(t):
            raise Invalid("scalar expected")
        if t == "float":
            return fpred("!=", v, fp1("i2f", 0))
        return T.cmp_("ne", self.W, v, 0)

    def cast(self, tt, e):
        t, v, c = self.ev(e)
        if (t == "void" or self.isstruct(t)) and tt != "void":
            raise Invalid("cast of void/struct")
        if not isinstance(tt, str) and tt[0] in ("fn", "arr", "struct"):
            raise Invalid("cast to non-scalar")
        t, v = self.decay(t, v) if tt != "void" else (t, v)
        if tt == "void":
            return "void", v, False
        if self.isptr(tt) and t == "float" or self.isptr(t) and tt == "float":
            raise Invalid("pointer/float cast")
        return tt, self.conv(t, v, tt), c if isinstance(tt, str) else False

    def usual(self, ta, va, tb, vb):
        if "float" in (ta, tb):
            return "float", self.conv(ta, va, "float"), self.conv(tb, vb, "float")
        ta, tb = self.promote(ta), self.promote(tb)
        return ("uint" if "uint" in (ta, tb) else "int"), va, vb

    def scalar(self, t):
        if t == "void" or self.isstruct(t):
            raise Invalid("scalar expected")

    def arithptr(self, t):
        """pointer usable in pointer arithmetic"""
        if self.isptr(t):
            p = t[1]
            if p == "void" or (not isinstance(p, str) and p[0] == "fn") or self.sizeof(p) == 0:
                raise Invalid("pointer arithmetic on incomplete/function type")

    def binary(self, op, ea, eb):
        d, W = self.d, self.W
        if op in ("&&", "||"):
            ta, va, ca = self.rv(ea)
            a = self.truth(ta, va)
            run = a if op == "&&" else T.lnot(a)
            tb, b, cb = self.under(run, lambda: self.truthc(eb))
            val = T.ite(1, a, b, 0) if op == "&&" else T.ite(1, a, 1, b)
            const = ca and cb and not self.isptr(ta)
            return "int", d.b(val), ("maybe" if ca and not const else const)
        if self.rl:
            tb, vb, cb = self.rv(eb)
            ta, va, ca = self.rv(ea)
        else:
            ta, va, ca = self.rv(ea)
            tb, vb, cb = self.rv(eb)
        pa, pb = self.isptr(ta), self.isptr(tb)
        fl = "float" in (ta, tb)
        if op in ("+", "-"):
            self.scalar(ta)
            self.scalar(tb)
            self.arithptr(ta)
            self.arithptr(tb)
            if (pa or pb) and fl:
                raise Invalid("pointer and float")
            if pa and pb:
                if op == "+" or self.sizeof(ta[1]) != self.sizeof(tb[1]):
                    raise Invalid("pointers")
                r = T.sub(W, va, vb)
                n = self.sizeof(ta[1])
                return "int", (T.sdiv(W, r, n) if n != 1 else r), False
            if pa or pb:
                if pb and op == "-":
                    raise Invalid("int - pointer")
                p, pv, iv = (ta, va, vb) if pa else (tb, vb, va)
                sc = T.mulc(W, iv, self.sizeof(p[1]))
                return p, (T.add if op == "+" else T.sub)(W, pv, sc), False
            t, x, y = self.usual(ta, va, tb, vb)
            if t == "float":
                return t, fp2("fadd" if op == "+" else "fsub", x, y), ca and cb
            return t, (T.add if op == "+" else T.sub)(W, x, y), ca and cb
        if op in ("*", "/", "%", "&", "^", "|", "<<", ">>"):
            for t in (ta, tb):
                if not (self.isint(t) or t == "float" and op in "*/"):
                    raise Invalid("operands of " + op)
            if op in ("<<", ">>"):
                t = self.promote(ta)
                o = {"<<": "<<", ">>": "u>>" if t == "uint" else ">>"}[op]
                if cb and isc(vb) and not 0 <= (sgn(vb, W) if tb != "uint" else vb) < W:
                    raise Unspecified("shift count")
                return t, d.binop(o, va, vb), ca and cb
            t, x, y = self.usual(ta, va, tb, vb)
            if t == "float":
                return t, fp2("fmul" if op == "*" else "fdiv", x, y), ca and cb
            o = op
            c = ca and cb
            if op in "/%":
                if t == "uint":
                    o = "u" + op
                if c:
                    c = "div"
            return t, d.binop(o, x, y), c
        # comparisons
        self.scalar(ta)
        self.scalar(tb)
        if (pa or pb) and fl:
            raise Invalid("pointer and float")
        if op in ("==", "!="):
            if pa != pb:
                z, zc = (vb, cb) if pa else (va, ca)
                if not (zc and self.iszero(z)):
                    raise Invalid("pointer and nonzero integer")
        else:
            if pa != pb:
                raise Invalid("pointer and integer")
            if pa and any(not isinstance(t[1], str) and t[1][0] == "fn" for t in (ta, tb)):
                raise Invalid("function pointers ordered")
        if fl:
            t, x, y = self.usual(ta, va, tb, vb)
            return "int", d.b(fpred(op, x, y)), ca and cb
        t = "uint" if pa or pb or "uint" in (self.promote(ta), self.promote(tb)) else "int"
        o = ("u" if t == "uint" and op not in ("==", "!=") else "") + op
        return "int", d.binop(o, va, vb), ca and cb

    def iszero(self, z):
        if isc(z):
            return z == 0
        if self.facts is not None:
            r = self.facts.decide(T.cmp_("eq", self.W, z, 0))
            if r is None and self.W == 16:
                r = self.facts.decide(T.cmp_("eq", 32, T.sext(16, z, 32), 0))
            if r is None:
                raise AnalysisError("null pointer constant undecided")
            return bool(r)
        raise AnalysisError("null pointer constant undecided")

    def truthc(self, e):
        t, v, c = self.rv(e)
        return t, self.truth(t, v), c

    def under(self, c, f):
        d = self.d
        n, nc, ncp = len(d.stores), len(d.calls), len(d.copies)
        r = f()
        if len(d.stores) != n:
            d.conds.append((c, d.stores[n:]))
            d.stores = d.stores[:n]
        if len(d.calls) != nc:
            d.ccalls.append((c, d.calls[nc:]))
            d.calls = d.calls[:nc]
        if len(d.copies) != ncp:
            d.ccopies.append((c, d.copies[ncp:]))
            d.copies = d.copies[:ncp]
        return r

    def modifiable(self, e):
        if e[0] == "paren":
            return self.modifiable(e[1])
        if e[0] not in ("var", "idx", "mem", "arrow") and not (e[0] == "un" and e[1] == "*"):
            # evaluate for constraint violations inside, then reject
            raise Invalid("not an lvalue")
        t, a = self.lval(e)
        if not isinstance(t, str) and t[0] in ("arr", "fn"):
            raise Invalid("array/function is not modifiable")
        return t, a

    def assign(self, op, ea, eb):
        d, W = self.d, self.W
        tl, al = self.modifiable(ea)
        tr, vr, cr = self.rv(eb)
        if tr == "void" or tl == "void":
            raise Invalid("void")
        if op == "=":
            sl, sr = self.isstruct(tl), self.isstruct(tr)
            if sl or sr:
                if not (sl and sr and tl == tr):
                    raise Invalid("struct assignment")
                d.copies.append((self.sizeof(tl), vr, al))
                return tl, al, False
            if "float" in (tl, tr) and (self.isptr(tl) or self.isptr(tr)):
                raise Invalid("float and pointer")
            v = self.convs(tr, vr, tl)
            return tl, d.store(al, self.ssize(tl), v), False
        op = op[:-1]
        self.scalar(tl)
        self.scalar(tr)
        if "float" in (tl, tr):
            raise Invalid("compound assignment of floats is not supported")
        self.arithptr(tl)
        if self.isptr(tr):
            raise Invalid("pointer on the right")
        if self.isptr(tl):
            if op not in ("+", "-"):
                raise Invalid("pointer " + op)
            k = T.mulc(W, vr, self.sizeof(tl[1]))
            cur = d.load(al, self.ssize(tl))
            return tl, d.store(al, self.ssize(tl), (T.add if op == "+" else T.sub)(W, cur, k)), False
        cur = d.load(al, self.ssize(tl))
        if op in ("<<", ">>"):
            o = {"<<": "<<", ">>": "u>>" if self.promote(tl) == "uint" else ">>"}[op]
            if cr and isc(vr) and not 0 <= (sgn(vr, W) if tr != "uint" else vr) < W:
                raise Unspecified("shift count")
        else:
            u = "uint" in (self.promote(tl), self.promote(tr))
            o = ("u" if u and op in "/%" else "") + op
        return tl, d.store(al, self.ssize(tl), d.binop(o, cur, vr)), False

    def convs(self, ft, v, tt):
        """conversion on assignment: the store narrows"""
        if tt == "float":
            return self.conv(ft, v, tt)
        if ft == "float":
            return fp1("f2u" if tt == "uint" else "f2i", v)
        return v

    def inc(self, op, e):
        d, W = self.d, self.W
        t, a = self.modifiable(e)
        if t == "float":
            raise Invalid("++/-- of floats is not supported")
        self.scalar(t)
        self.arithptr(t)
        n = self.sizeof(t[1]) if self.isptr(t) else 1
        old = d.load(a, self.ssize(t))
        new = (T.add if "+" in op else T.sub)(W, old, n)
        r = d.store(a, self.ssize(t), new)
        return t, (old if op[0] == "p" else r), False

    def ternary(self, ec, ea, eb):
        d, W = self.d, self.W
        tc, vc, cc = self.rv(ec)
        c = self.truth(tc, vc)
        ta, va, ca = self.under(c, lambda: self.rv(ea))
        tb, vb, cb = self.under(T.lnot(c), lambda: self.rv(eb))
        sa, sb = self.isstruct(ta), self.isstruct(tb)
        if sa or sb:
            if ta != tb:
                raise Invalid("?: of structs")
            return ta, T.ite(W, c, va, vb), False
        num = lambda t: self.isint(t) or t == "float"
        if num(ta) and num(tb):
            t, x, y = self.usual(ta, va, tb, vb)
            cst = "cond" if cc and not (ca and cb) else (cc and ca and cb)
            return t, T.ite(W, c, x, y), cst
        if ta == "void" and tb == "void":
            return "void", T.ite(W, c, va, vb), False
        pa, pb = self.isptr(ta), self.isptr(tb)
        nulla = self.isint(ta) and ca and self.iszero(va)
        nullb = self.isint(tb) and cb and self.iszero(vb)
        if pa and nullb:
            t = ta
        elif pb and nulla:
            t = tb
        elif pa and pb:
            if ta == tb:
                t = ta
            elif ta[1] == "void" or tb[1] == "void":
                t = ("ptr", "void")
            else:
                raise Invalid("incompatible pointers in ?:")
        else:
            raise Invalid("operands of ?:")
        return t, T.ite(W, c, va, vb), "cond" if cc else False

    def callx(self, ef, args):
        d, W = self.d, self.W
        t, v, c = self.rv(ef)
        if not (self.isptr(t) and not isinstance(t[1], str) and t[1][0] == "fn"):
            raise Invalid("call of non-function")
        name = ef[1] if ef[0] == "var" and self.env[ef[1]][0][0] == "fn" else None
        sig = self.env[ef[1]][2]
        vals = []
        # arguments are evaluated right to left
        if len(args) > len(sig[0]) and not sig[1] or len(args) < len(sig[0]):
            raise Invalid("argument count")
        for i in reversed(range(len(args))):
            ta, va, ca = self.rv(args[i])
            if ta == "void":
                raise Invalid("void argument")
            if i < len(sig[0]):
                pt = sig[0][i]
                if "float" in (pt, ta) and (self.isptr(pt) or self.isptr(ta)):
                    raise Invalid("float and pointer")
                if self.isstruct(ta) or self.isstruct(pt):
                    if ta != pt:
                        raise Invalid("struct argument")
                va = self.convs(ta, va, pt) if not self.isstruct(ta) else va
            if self.isstruct(ta):
                va = T.fn("structval", 32, self.sizeof(ta), va, d.v)
            vals.append(va)
        d.ncalls += 1
        d.calls.append((("lab:_" + name) if name else v, vals))
        d.v += 1
        r = T.ext(32, T.sym("call%d.eax" % d.ncalls, 32), 0, W)
        rt = t[1][1]
        # the callee returns a value already converted to its type
        return rt, r, False
