"""Front-end expression semantics: exprval()/expr()/ParseExpr() analysed per
operator and operand types; typed C semantics is the oracle."""
import sys
sys.setrecursionlimit(20000)
import terms as T
from terms import isc, mask, sgn
import fe, fesem, emit, x86, build, par
from sai import AnalysisError
from fesem import Invalid, Unspecified, Bad

DECL = """
struct S { char a; int b; struct S* n; int c[3]; }; struct Q { char d[3]; }; struct U; enum E { EA = 5, EB };
int gi; unsigned gu; char gc; signed char gsc; unsigned char guc; short gs; unsigned short gus; %(f)s
int* gpi; char* gpc; void* gpv; struct S gst, *gps; struct Q gq; struct U *gpu; int gai[5]; int ga2[3][4]; char gca[7]; enum E ge;
int fn(int,int); unsigned ufn(char*, ...); void vfn(void); struct S* pfn(int); int (*fp)(int,int); %(ff)s
void main(int pa, char pc) { int li; unsigned lu; char lc; struct S lst; int* lpi; static int sl; int la[4]; %(lf)s @here
"""

PREC = {",": 0, "=": 1, "?": 2, "||": 3, "&&": 4, "|": 5, "^": 6, "&": 7, "==": 8, "!=": 8, "<": 9, ">": 9, "<=": 9, ">=": 9,
        "<<": 10, ">>": 10, "+": 11, "-": 11, "*": 12, "/": 12, "%": 12, "u": 13, "p": 14}

TYNAME = {"char": "char", "schar": "signed char", "uchar": "unsigned char", "short": "short", "ushort": "unsigned short",
          "int": "int", "uint": "unsigned", "float": "float", "void": "void"}


def tname(t):
    if isinstance(t, str):
        return TYNAME[t]
    if t[0] == "ptr":
        return tname(t[1]) + "*"
    if t[0] == "struct":
        return "struct " + t[1]
    raise AnalysisError("type name")


def render(e, p=0):
    k = e[0]

    def par_(s, q):
        return "(" + s + ")" if q < p else s
    if k in ("ci", "cu", "cf"):
        return e[2]
    if k == "paren":
        return "(" + render(e[1]) + ")"
    if k == "var":
        return e[1]
    if k == "idx":
        return render(e[1], 14) + "[" + render(e[2]) + "]"
    if k == "mem":
        return render(e[1], 14) + "." + e[2]
    if k == "arrow":
        return render(e[1], 14) + "->" + e[2]
    if k == "call":
        return render(e[1], 14) + "(" + ",".join(render(a, 1) for a in e[2]) + ")"
    if k == "inc":
        if e[1][0] == "p":
            return par_(render(e[2], 14) + " " + e[1][1:], 14)
        return par_(e[1] + " " + render(e[2], 13), 13)
    if k == "un":
        return par_(e[1] + " " + render(e[2], 13), 13)
    if k == "cast":
        return par_("(" + tname(e[1]) + ")" + render(e[2], 13), 13)
    if k == "sizeof":
        if e[1][0] == "type":
            return "sizeof(" + tname(e[1][1]) + ")"
        return par_("sizeof " + render(e[1], 13), 13)
    if k == "asg":
        return par_(render(e[2], 13) + e[1] + render(e[3], 1), 1)
    if k == "cond":
        return par_(render(e[1], 3) + "?" + render(e[2], 0) + ":" + render(e[3], 2), 2)
    if k == "comma":
        return par_(render(e[1], 0) + "," + render(e[2], 1), 0)
    if k == "bin":
        q = PREC[e[1]]
        return par_(render(e[2], q) + " " + e[1] + " " + render(e[3], q + 1), q)
    raise AnalysisError("render %r" % (k,))


class Front:
    def __init__(self, model, fe_=None):
        self.model = model
        self.W = 16 if model == "seg16" else 32
        self.fe = fe_ or fe.FE()
        fl = self.W == 32
        self.fl = fl
        d = DECL % {"f": "float gf;" if fl else "", "ff": "float ffn(float);" if fl else "", "lf": "float lf;" if fl else ""}
        self.decl = d
        self.opts = ["-" + model]
        self.st = self.fe.base(self.opts, d)
        self.sy = self.fe.symbols(self.st)
        B = self.W // 8
        S = ("struct", "S")
        I4 = ("arr", 3, "int")
        self.structs = {
            "S": (B * 6, {"a": (0, "char"), "b": (B, "int"), "n": (2 * B, ("ptr", S)), "c": (3 * B, I4)}),
            "Q": (3, {"d": (0, ("arr", 3, "char"))}), "U": None}
        p = lambda t: ("ptr", t)
        ty = {"gi": "int", "gu": "uint", "gc": "char", "gsc": "schar", "guc": "uchar", "gs": "short", "gus": "ushort",
              "gpi": p("int"), "gpc": p("char"), "gpv": p("void"), "gst": S, "gps": p(S), "gq": ("struct", "Q"), "gpu": p(("struct", "U")),
              "gai": ("arr", 5, "int"), "ga2": ("arr", 3, ("arr", 4, "int")), "gca": ("arr", 7, "char"), "ge": "int",
              "pa": "int", "pc": "char", "li": "int", "lu": "uint", "lc": "char", "lst": S, "lpi": p("int"), "sl": "int",
              "la": ("arr", 4, "int")}
        if fl:
            ty.update({"gf": "float", "lf": "float"})
        sig = {"fn": ("int", ("int", "int"), False), "ufn": ("uint", (p("char"),), True), "vfn": ("void", (), False),
               "pfn": (p(S), ("int",), False)}
        if fl:
            sig["ffn"] = ("float", ("float",), False)
        self.ty, self.sig = ty, sig

    def env(self, d):
        env = {}
        for n, t in self.ty.items():
            a = self.addr(d, n)
            env[n] = (t, a)
        for n, (r, ps, v) in self.sig.items():
            env[n] = (("fn", r), d.lab(n), (ps, v))
        env["fp"] = (("ptr", ("fn", "int")), d.lab("fp"), (("int", "int"), False))
        return env

    def addr(self, d, n):
        i, kind, v, ti = self.sy[n]
        if kind == "local":
            return d.local(v)
        return d.lab(v)

    def const(self, name, kind):
        """(AST leaf, tokens)"""
        t = self.fe.t
        if self.W == 16:
            s = T.sym(name, 16)
            v = T.sext(16, s, 32) if kind == "ci" else T.zext(16, s, 32)
        else:
            v = T.sym(name, 32)
        tok = {"ci": t.tokNumInt, "cu": t.tokNumUint, "cf": t.by.get("tokNumFloat")}[kind]
        return (kind, v, "@" + name), [(tok, v)]

    def check(self, e, sub, maxpaths=64):
        """analyse one expression; list of (message, where)"""
        f = self.fe
        text = render(e)
        s = self.st.fork()
        toks = f.lex(text + " ;", sub)
        sts, holes = f.parse_expr(s, toks)
        probs = []
        for st in sts:
            try:
                r = self.path(e, st, holes)
                if r and not isvalidity(r) and self.path(e, st, holes, True) is None:
                    r = None
            except Unspecified:
                r = None
            except RecursionError:
                raise
            if r:
                w = where(st)
                probs.append(("`%s` (%s): %s" % (text, self.model, r), w))
        return text, len(sts), probs

    def path(self, e, st, holes, rl=False):
        f, W = self.fe, self.W
        S = (lambda v: T.subst(v, st.eqs)) if st.eqs else (lambda v: v)
        do = fesem.newden(self.model, holes)
        C = fesem.CSem(do, self.env(do), W, self.structs, facts=Facts(st))
        C.rl = rl
        try:
            ty, val, cst = C.rv(e)
            inv = None
        except Invalid as x:
            inv = x
        if st.status != "ret":
            if not str(st.status).startswith("diag:"):
                return "analysis ends with %r" % (st.status,)
            if "nternal" in st.status or "Long" in st.status:
                return "internal error: %s" % st.status
            if inv is None:
                return "valid expression is rejected (%s)" % st.status
            return None
        o = st.user["outs"]
        ct = f.typ(st, st.load(o[1], 4))
        rpn = f.rpn(st)
        if inv is not None:
            return "constraint violation (%s) is accepted as %s" % (inv, f.rpntext(st, rpn))
        ct = decay(ct)
        if W == 16:
            ct, ty = narrow16(ct), narrow16(ty)
        if ct != ty:
            return "type is %s, expected %s" % (ct, ty)
        c = st.load(o[2], 4)
        cv = st.load(o[3], 4)
        if not isc(c):
            return "constness is undetermined: %s" % (c,)
        if cst is True and not c or cst is False and c:
            return "%s a constant expression: %s" % ("should be" if cst is True else "should not be", f.rpntext(st, rpn))
        dg = fesem.newden(self.model, holes)
        sem = fesem.Sem(f, st)
        try:
            got = sem.ev(dg, sem.parse(rpn))
        except (Bad, IndexError) as x:
            return "malformed intermediate code %s: %s" % (f.rpntext(st, rpn), x)
        known = {}
        for k, v in st.facts.items():
            k = norm(k, W)
            if not isc(k):
                known[k] = v
                if k.op == "cmp" and k.args[0] == "eq" and v == 1 and isc(k.args[2]):
                    x, cw = k.args[1], k.args[3]
                    known[x] = k.args[2]
                    for nb in (4, 5):
                        if cw > nb:
                            y = T.ext(cw, x, 0, nb)
                            if not isc(y):
                                known[y] = k.args[2] & mask(nb)
                elif k.op == "cmp" and k.args[0] == "eq" and v == 1 and k.args[1].op in ("ext", "sym", "fn"):
                    known[k.args[1]] = k.args[2]
                if k.op == "not":
                    known[k.args[0]] = 1 - v
        for t, (lo, hi) in st.ivals.items():        # signs the path implies without having tested them
            k = norm(t, W)
            if not isc(k) and k.w == t.w and (lo >= 0 or hi < 0):
                c0 = T.cmp_("slt", k.w, k, 0)
                if not isc(c0):
                    known.setdefault(c0, 0 if lo >= 0 else 1)
        memo = {}
        S2 = lambda v: v if isc(v) else fesem.rewrite(S(norm(v, W)), W, memo, known)
        if c and ty != "void":
            k = T.ext(32, cv, 0, W) if not isc(cv) else cv & mask(W)
            a, b = S2(k), S2(val)
            if not same(a, b, st):
                return "constant value is %s, expected %s" % (a, b)
            # in range of the type for a narrow machine word
            if not rpn or len(rpn) != 1 or rpn[0][0] not in (f.t.tokNumInt, f.t.tokNumUint):
                pass
        if ty != "void":
            a, b = S2(got), S2(val)
            if not same(a, b, st):
                return "value is %s, expected %s [%s]" % (a, b, f.rpntext(st, rpn))
        for d_ in (dg, do):
            flatten(d_, S2)
        gs = eff([(S2(a), n, S2(v)) for a, n, v in dg.stores])
        ws = eff([(S2(a), n, S2(v)) for a, n, v in do.stores])
        fl = lambda x, y: x == y or T.agreeall(x, y, st.facts.items())
        if not fl(gs, ws):
            return "memory effect is %s, expected %s [%s]" % (gs, ws, f.rpntext(st, rpn))

        def conds(l, g):
            return [(S2(c), g(x)) for c, x in l if not (isc(S2(c)) and S2(c) == 0)]
        st3 = lambda x: [(S2(a), n, S2(v)) for a, n, v in x]
        cl3 = lambda x: [(t if isinstance(t, str) else S2(t), [S2(v) for v in a]) for t, a in x]
        cp3 = lambda x: [tuple(S2(v) for v in c) for c in x]
        for nm, g, w, fn in (("conditional memory effect", dg.conds, do.conds, st3), ("conditional calls", dg.ccalls, do.ccalls, cl3),
                             ("conditional structure copies", dg.ccopies, do.ccopies, cp3)):
            g, w = conds(g, fn), conds(w, fn)
            if not fl(g, w):
                return "%s: %s, expected %s [%s]" % (nm, g, w, f.rpntext(st, rpn))
        if not fl(cl3(dg.calls), cl3(do.calls)):
            return "calls %s, expected %s [%s]" % (cl3(dg.calls), cl3(do.calls), f.rpntext(st, rpn))
        if not fl(cp3(dg.copies), cp3(do.copies)):
            return "structure copies %s, expected %s [%s]" % (cp3(dg.copies), cp3(do.copies), f.rpntext(st, rpn))
        return None


def flatten(d, S):
    """effects under a condition the path has decided"""
    for l, dst in ((d.conds, d.stores), (d.ccalls, d.calls), (d.ccopies, d.copies)):
        for c, x in list(l):
            k = S(c)
            if isc(k):
                l.remove((c, x))
                if k:
                    dst.extend(x)


def narrow16(t):
    """short and int are the same type for a 16-bit machine word"""
    if isinstance(t, str):
        return {"short": "int", "ushort": "uint"}.get(t, t)
    return tuple(narrow16(x) if isinstance(x, (str, tuple)) and i and not (t[0] == "struct") else x for i, x in enumerate(t))


def eff(l):
    return l


def same(a, b, st):
    return T.agree(a, b, st.facts.items())


def decay(t):
    if not isinstance(t, str):
        if t[0] == "arr":
            return ("ptr", t[2])
        if t[0] == "fn":
            return ("ptr", t)
    return t


class Facts:
    def __init__(self, st):
        self.st = st

    def decide(self, c):
        c = T.subst(c, self.st.eqs) if self.st.eqs and not isc(c) else c
        if isc(c):
            return bool(c)
        return self.st.decide(c)


def where(st):
    l = st.user.get("errline")
    return l if l else "smlrc.c (exprval)"


# ---------------------------------------------------------------- normal form
def norm(v, W):
    """host arithmetic done by the folder -> machine-word / canonical float operations"""
    if isc(v):
        return v
    return T_rewrite(v, W, {})


def T_rewrite(t, W, memo):
    return fesem.rewrite(t, W, memo)


LEAF = ["gi", "gu", "gc", "gsc", "guc", "gs", "gus", "gpi", "gpc", "gpv", "gst", "gps", "gq", "gpu", "gai", "ga2", "li", "lc", "lst", "lpi", "la",
        "fn", "vfn", "fp"]
V = lambda n: ("var", n)
B = lambda o, a, b: ("bin", o, a, b)
U = lambda o, a: ("un", o, a)
ARITH = ["+", "-", "*", "/", "%", "&", "^", "|", "<<", ">>"]
REL = ["<", "<=", ">", ">=", "==", "!="]
LOG = ["&&", "||"]
ASG = ["=", "+=", "-=", "*=", "/=", "%=", "&=", "^=", "|=", "<<=", ">>="]
INC = ["++", "--", "p++", "p--"]
TYPES = ["char", "schar", "uchar", "short", "ushort", "int", "uint", "float", "void", ("ptr", "int"), ("ptr", "char"), ("ptr", "void"),
         ("ptr", ("struct", "S")), ("struct", "S")]
MARK = {"asg": 0}


class Gen:
    """expression partitions of one model"""

    def __init__(self, fr, deep=True, comp=True):
        self.fr = fr
        self.deep = deep
        self.comp = comp
        self.sub = {}
        self.vars = [V(n) for n in LEAF] + ([V("gf"), V("lf")] if fr.fl else [])
        self.consts = [self.k("c1", "ci"), self.k("u1", "cu")] + ([self.k("f1", "cf")] if fr.fl else [])
        self.c2 = [self.k("c2", "ci"), self.k("u2", "cu")] + ([self.k("f2", "cf")] if fr.fl else [])
        self.c3 = [self.k("c3", "ci")]
        self.ints = [V(n) for n in ("gi", "gu", "gc", "gsc", "guc", "gs", "gus", "li", "lc")]
        self.fvars = [V("gf"), V("lf")] if fr.fl else []
        self.num = self.ints + self.fvars
        self.ptrs = [V(n) for n in ("gpi", "gpc", "gpv", "gps", "gpu", "gai", "ga2", "lpi", "la", "fn", "fp")]
        self.structs = [V("gst"), V("lst"), V("gq")]

    def k(self, n, kind):
        e, tk = self.fr.const(n, kind)
        self.sub[n] = tk
        return e

    def lit(self, v):
        n = "k%d" % v
        self.sub[n] = [(self.fr.fe.t.tokNumInt, v)]
        return ("ci", v, "@" + n)

    def fold(self):
        """constant operands"""
        for o in ARITH + REL + LOG:
            for a in self.consts:
                for b in self.c2 + self.consts:
                    yield B(o, a, b)
        for o in "-+~!":
            for a in self.consts:
                yield U(o, a)
        for t in TYPES[:8]:
            if t == "float" and not self.fr.fl:
                continue
            for a in self.consts:
                yield ("cast", t, a)
                yield U("-", ("cast", t, a))
                for t2 in TYPES[:8]:
                    if t2 == "float" and not self.fr.fl:
                        continue
                    yield ("cast", t2, ("cast", t, a))
        for a in self.consts:
            for b in self.c2:
                for c in self.c3 + self.consts:
                    yield ("cond", c, a, b)
        # nested folding: the value of the inner operation feeds the outer one
        for o in ("+", "-", "*", "&", "|", "^", "<<"):
            for o2 in ("+", "-", "/", "%", "<", "==", ">>", "&&"):
                for a, b in ((self.consts[0], self.c2[0]), (self.consts[0], self.c2[1]), (self.consts[1], self.c2[0])):
                    yield B(o2, B(o, a, b), self.c3[0])
                    yield B(o2, self.c3[0], B(o, a, b))
        for o in ("<", "==", "&&", "||"):
            for a in self.consts:
                for b in self.c2:
                    yield ("cond", B(o, a, b), self.c3[0], V("gi"))
                    yield B("+", B(o, a, b), V("gi"))
                    yield U("-", B(o, a, b))
                    yield U("!", B(o, a, b))
                    yield U("~", U("!", B(o, a, b)))

    def arith(self):
        """operators on integers and floats: type selection, conversions"""
        for o in ARITH + REL + LOG:
            for a in self.num + self.consts:
                for b in self.num + self.consts:
                    if a in self.num or b in self.num:
                        yield B(o, a, b)
        for o in "-+~!":
            for a in self.num:
                yield U(o, a)
                yield U("-", U(o, a))
                yield B("*", U(o, a), V("gu"))
        for t in TYPES[:9]:
            if t == "float" and not self.fr.fl:
                continue
            for a in self.num:
                yield ("cast", t, a)
                if t != "void":
                    yield B("<", ("cast", t, a), V("gu"))
                    yield B("/", ("cast", t, a), V("gi"))
                    yield B(">>", ("cast", t, a), V("gi"))
        for c in ([V("gi"), V("gc"), self.c3[0]] if self.deep else [V("gi"), self.c3[0]]) + self.fvars[:1]:
            for a in self.num + self.consts if self.deep else [V("gi"), V("gu"), V("gc"), V("gus")] + self.fvars[:1] + self.consts:
                for b in self.num + self.consts:
                    yield ("cond", c, a, b)
        # composite operands: conversions are inserted around whole sub-expressions
        if not self.comp:
            return
        comp = [B("+", V("gi"), V("gc")), B("*", V("gu"), V("li")), ("call", V("fn"), [V("gi"), V("li")]), ("asg", "=", V("gi"), V("li")),
                ("idx", V("gai"), V("li")), B("&&", V("gi"), V("li")), ("cond", V("gi"), V("li"), V("gu")), ("paren", ("comma", V("gi"), V("li"))),
                B("<", V("gi"), V("gu")), B("-", self.consts[0], V("gi")), ("inc", "p++", V("li"))]
        if self.fr.fl:
            comp += [B("+", V("gf"), V("gi")), U("-", V("gf")), ("call", V("ffn"), [V("gi")]), B("<", V("gf"), V("gi")), ("asg", "=", V("gi"), V("gf")),
                     ("asg", "=", V("gf"), V("gi")), U("!", V("gf")), B("*", self.consts[2], V("gi")), B("+", self.consts[0], V("gf")),
                     ("cond", V("gf"), V("gf"), V("gi")), B("&&", V("gf"), V("gi"))]
        for o in ("+", "-", "*", "/", "<", "==", ">", "&&", "||", "<<", ">>", "%", "&") if self.deep else ("-", "/", ">", "||", ">>"):
            for a in comp:
                for b in comp + [V("gi"), V("gu"), self.consts[0]] + self.fvars[:1]:
                    yield B(o, a, b)
                    if b not in comp:
                        yield B(o, b, a)

    def ptr(self):
        """pointers, arrays, members, addresses, sizeof"""
        P = self.ptrs
        I = self.ints + self.consts + self.fvars[:1]
        for o in ("+", "-"):
            for a in P:
                for b in I + P:
                    yield B(o, a, b)
                for b in I:
                    yield B(o, b, a)
                    yield B("-", B(o, a, b), V("gi"))
                    yield U("*", B(o, a, b))
        for o in REL + LOG:
            for a in P:
                for b in P + I + [self.lit(0)]:
                    yield B(o, a, b)
                for b in I + [self.lit(0)]:
                    yield B(o, b, a)
        for a in P + [V("gst"), V("gi")]:
            yield U("*", a) if a != V("fn") else a
            yield U("!", a)
            yield U("&", a)
            yield U("*", U("&", a)) if a != V("fn") else a
            for i in I + P[:2]:
                yield ("idx", a, i)
                yield ("idx", i, a)
            for m in ("a", "b", "n", "c", "zz"):
                yield ("arrow", a, m)
                yield ("mem", a, m)
                yield U("&", ("arrow", a, m))
            for c in P + [self.lit(0), V("gi"), V("gst")]:
                yield ("cond", V("gi"), a, c)
                yield ("cond", V("gi"), c, a)
            for t in TYPES:
                if t == "float" and not self.fr.fl:
                    continue
                yield ("cast", t, a)
        for t in TYPES[9:13]:
            for a in I:
                yield ("cast", t, a)
                yield B("+", ("cast", t, a), V("gi")) if t != ("ptr", "void") else V("gi")
        for e in self.vars + P:
            yield ("sizeof", e)
        for e in (("idx", V("ga2"), V("gi")), ("idx", ("idx", V("ga2"), V("gi")), V("li")), U("*", V("gps")), ("arrow", V("gps"), "c"), ("mem", V("gst"), "a"),
                  B("+", V("gc"), V("gc")), ("inc", "p++", V("gi")), ("call", V("fn"), [V("gi"), V("gi")]), ("call", V("vfn"), []), U("*", V("gpu")),
                  ("cond", V("gi"), V("gc"), V("gc")), U("&", V("gst")), U("!", V("gc")), ("asg", "=", V("gc"), V("gi"))):
            yield ("sizeof", ("paren", e))
            yield B("-", ("sizeof", ("paren", e)), V("gi"))
        for t in TYPES:
            if t == "float" and not self.fr.fl:
                continue
            yield ("sizeof", ("type", t))
        for e in (("idx", ("idx", V("ga2"), V("gi")), V("li")), ("idx", ("idx", V("ga2"), self.consts[0]), self.c2[0]), ("idx", ("arrow", V("gps"), "c"), V("li")),
                  ("arrow", ("arrow", V("gps"), "n"), "b"), ("idx", ("mem", V("lst"), "c"), self.consts[0]), ("mem", U("*", V("gps")), "n"),
                  ("mem", ("idx", V("gps"), V("li")), "a"), U("*", ("inc", "p++", V("gpc"))), U("*", ("inc", "++", V("gps"))),
                  ("idx", ("paren", B("+", V("gpi"), V("li"))), self.consts[0]), U("&", ("idx", V("ga2"), V("li"))),
                  U("*", U("*", V("ga2"))), U("*", B("+", U("*", B("+", V("ga2"), V("li"))), V("gi"))), ("arrow", ("call", V("pfn"), [V("gi")]), "b"),
                  ("mem", U("*", ("call", V("pfn"), [V("gi")])), "c"), ("mem", ("paren", ("asg", "=", V("gst"), V("lst"))), "b"),
                  ("mem", ("paren", ("cond", V("gi"), V("gst"), V("lst"))), "b"), ("idx", V("gq"), V("gi")), ("idx", ("mem", V("gq"), "d"), V("gi"))):
            yield e
            yield U("&", e)
            yield U("-", e)
            yield ("asg", "=", V("gi"), e)
            yield ("asg", "=", e, V("gi"))
            yield ("asg", "+=", e, V("gc"))
            yield ("inc", "p--", e)
            yield ("sizeof", ("paren", e))

    def assign(self):
        L = self.vars + [("idx", V("gai"), V("li")), ("arrow", V("gps"), "b"), ("arrow", V("gps"), "a"), U("*", V("gpc")), ("mem", V("lst"), "n"),
                         ("idx", V("gca"), V("gi")), self.consts[0], U("*", V("gps")), U("-", V("gi")), ("paren", V("gi")), B("+", V("gi"), V("gi")),
                         U("*", V("gpv")), ("call", V("fn"), [V("gi"), V("gi")]), ("cond", V("gi"), V("gi"), V("li"))]
        R = self.vars + self.consts + [("call", V("vfn"), []), B("+", V("gi"), V("gu")), self.lit(0)]
        for o in ASG:
            for a in L if self.comp else L[::2] + L[-15:]:
                for b in R if o in ("=", "+=", "-=", "/=", ">>=") else R[::2] + self.consts:
                    yield ("asg", o, a, b)
        for o in INC:
            for a in L:
                yield ("inc", o, a)
                yield B("+", ("inc", o, a), V("gu")) if a in self.num else a
        for a in self.num:
            for b in self.num:
                yield ("asg", "=", V("gi"), ("asg", "=", a, b))
                yield ("asg", "=", a, ("asg", "=", b, V("gi")))
                yield ("comma", ("asg", "=", a, b), V("gi"))
        for c in (V("gi"), self.c3[0], V("gpi"), V("gst")):
            for a in self.structs + [V("gi")]:
                for b in self.structs + [V("gi")]:
                    yield ("asg", "=", V("gst"), ("paren", ("cond", c, a, b)))
                    yield ("cond", c, ("asg", "=", V("gi"), V("li")), b)
                    yield ("cond", c, a, ("inc", "++", V("gi")))

    def calls(self):
        A = self.vars + self.consts + [("call", V("vfn"), []), ("asg", "=", V("gi"), V("gc")), ("comma", V("gi"), V("gc"))]
        if self.fr.fl:
            for a in A:
                yield ("call", V("ffn"), [a])
        for a in A:
            yield ("call", V("pfn"), [a])
            yield ("call", V("ufn"), [a])
            yield ("call", a, [V("gi"), V("gi")]) if a != V("fp") else a
            yield ("call", a, []) if a != V("fp") else a
            for b in [V("gi"), V("gc"), self.consts[0]] + self.fvars[:1]:
                for f in ("fn", "fp"):
                    yield ("call", V(f), [a, b])
                    yield ("call", V(f), [b, a])
                yield ("call", V("ufn"), [V("gpc"), a, b])
        for n in range(5):
            for f in ("fn", "fp", "ufn", "vfn", "pfn"):
                yield ("call", V(f), [V("gpc") if f == "ufn" and i == 0 else V("gi") for i in range(n)])
        for o in ("+", "<", "&&", ">>", "/"):
            for x in (("call", V("fn"), [V("gi"), V("li")]), ("call", V("ufn"), [V("gpc")]), ("call", V("vfn"), []), ("call", V("pfn"), [V("gi")])):
                for y in (V("gi"), V("gu"), self.consts[0], ("call", V("fn"), [V("li"), V("gi")])):
                    yield B(o, x, y)
                    yield B(o, y, x)
        yield ("call", V("fn"), [("call", V("fn"), [V("gi"), V("gc")]), ("call", V("fn"), [self.consts[0], V("li")])])

    def prec(self):
        """operator pairs: grouping must follow C precedence and associativity"""
        ops = ARITH + REL + LOG + [","] + ASG[:3] + ["?l", "?m", "?r"]
        a, b, c, d = V("gi"), V("li"), self.consts[0], V("gu")

        def mk(o, x, y):
            if o == ",":
                return ("comma", x, y)
            if o in ASG:
                return ("asg", o, x, y)
            if o == "?l":
                return ("cond", x, y, V("pa"))
            if o == "?m":
                return ("cond", V("pa"), x, y)
            if o == "?r":
                return ("cond", V("pa"), V("lu"), ("comma", x, y)) if 0 else ("cond", x, V("pa"), y)
            return B(o, x, y)
        for o1 in ops:
            for o2 in ops:
                yield mk(o1, mk(o2, a, b), c) if o1 not in ASG else mk(o1, a, mk(o2, b, d))
                yield mk(o1, a, mk(o2, b, c))
                yield mk(o1, a, mk(o2, b, d))
        for u in "-+~!":
            for o in ops:
                if o in ASG:
                    continue
                yield mk(o, U(u, a), b)
                yield mk(o, a, U(u, b))
                yield U(u, mk(o, a, b))
            for o in INC:
                yield U(u, ("inc", o, V("li")))
        for o in ops:
            if o in ASG:
                continue
            yield mk(o, U("*", V("gpi")), b)
            yield mk(o, a, U("*", V("gpi")))
            yield mk(o, U("&", V("gai")), V("gps"))
            yield mk(o, ("cast", "char", a), b)
            yield ("cast", "char", mk(o, a, b))
            yield mk(o, ("sizeof", a), b)
            yield mk(o, ("inc", "p++", V("li")), c)
            yield mk(o, c, ("inc", "--", V("li")))
        for e in (U("*", ("inc", "p++", V("gpi"))), ("inc", "p++", U("*", V("gpi"))), ("inc", "++", U("*", V("gpi"))), U("*", ("inc", "++", V("gpi"))),
                  U("&", ("arrow", V("gps"), "c")), U("*", ("idx", V("ga2"), V("gi"))), ("idx", U("*", V("ga2")), V("gi")), U("-", ("idx", V("gai"), V("gi"))),
                  U("*", ("arrow", V("gps"), "n")), ("mem", U("*", V("gps")), "a"), ("inc", "p--", ("arrow", V("gps"), "a")), U("~", U("-", U("!", V("gi")))),
                  ("cast", "char", U("-", V("gi"))), U("-", ("cast", "char", V("gi"))), ("cast", "uchar", ("idx", V("gai"), V("gi"))),
                  ("sizeof", U("-", V("gc"))), ("cast", ("ptr", "int"), B("+", V("gi"), V("li"))), U("!", ("call", V("fn"), [V("gi"), V("li")]))):
            yield e


GROUPS = ["fold", "arith", "ptr", "assign", "calls", "prec"]


def jobs(groups, models, deep, comp):
    fronts = {}
    out = []
    f = fe.FE()
    for m in models:
        fr = fronts[m] = Front(m, f)
        g = Gen(fr, deep, comp)
        for n in groups:
            seen = set()
            for e in getattr(g, n)():
                k = render(e)
                if k in seen:
                    continue
                seen.add(k)
                out.append((m, n, e, g.sub))
    return fronts, out


def isvalidity(msg):
    return "is rejected" in msg or "is accepted as" in msg or "internal error" in msg


def run(r, groups, title, models=("seg32", "seg16"), validity=None, comp=True):
    fronts, js = jobs(groups, models, r.thorough, comp or r.thorough)
    f = next(iter(fronts.values())).fe

    def one(j):
        m, n, e, sub = j
        f.covered = set()
        return fronts[m].check(e, sub) + (f.covered,)
    cov = set()
    for (m, n, e, sub), (text, np, probs, c) in zip(js, par.pmap(one, js)):
        cov |= c
        r.count("expressions")
        r.count("expressions_%s_%s" % (n, m))
        r.count("paths", np)
        if r.cover["expressions"] % 997 == 1:
            r.sample("%s: %s" % (m, text))
        for msg, w in probs:
            if validity is None or validity == isvalidity(msg):
                r.violation("%s:%s" % (m, text), w if w.startswith("v0100") else "v0100/" + w, msg)
    r.cover["functions"] = sorted({x for x, b in cov})
    r.count("basic_blocks", len(cov))
    r.rule(title + " Method: ParseExpr()/exprval() of smlrc's LLVM IR are analysed by abstract interpretation (constants x value numbers, "
           "trace partitioning) for every operator and operand-type class, numeric constants being value numbers; the resulting type, "
           "constness, constant value and the meaning of the RPN (value, stores, calls, copies) must equal C's for all values.")
    r.assume += ["engine/fesem.py states C's typing and value rules, with the documented restrictions of the compiler (no compound assignment or ++/-- of floats, "
                 "pointers of equal element size are comparable and subtractable, arguments are evaluated right to left)",
                 "host float arithmetic of fp.c is represented by uninterpreted operations fadd/fsub/fmul/fdiv/fneg/conversions/comparisons"]


def fold(r):
    run(r, ["fold"], "Constant expressions.", validity=False)
    r.need("expressions", 1700)


def arith(r):
    run(r, ["arith"], "Arithmetic on integers and floats.", validity=False)
    r.need("expressions", 8000)


def ptr(r):
    run(r, ["ptr"], "Pointers, arrays, structure members, sizeof.", validity=False)
    r.need("expressions", 10000)


def assign(r):
    run(r, ["assign", "calls"], "Assignments, increments, structure copies and calls.", validity=False)
    r.need("expressions", 15000)


def valid(r):
    run(r, ["arith", "ptr", "assign", "calls"], "Constraint checking.", validity=True, comp=False)
    r.need("expressions", 20000)


def prec(r):
    run(r, ["prec"], "Grouping of operators.")
    r.need("expressions", 4000)
