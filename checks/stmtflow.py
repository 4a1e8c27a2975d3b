"""Statement control flow: ParseStatement()/ParseBlock() and the jump emitters, analysed per
statement shape; C's flow of control is the oracle."""
import sys
sys.setrecursionlimit(20000)
import terms as T
from terms import isc, mask
import fe, stmt, emit, par
from sai import AnalysisError

DECL = """
int a(void); int b(void); int c(void); int d(void); int e(void); unsigned u(void); unsigned v(void); char* p(void); char k(void);
void s(void); void t(void); void w(void); void x(void); void y(void); int gz; %s @here
"""
VOIDS = "s t w x y".split()


def call(n):
    return ("call", n)


def rend(e):
    """expression -> C text"""
    k = e[0]
    if k == "num":
        return e[2] if len(e) > 2 else str(e[1])
    if k in ("call", "fcall"):
        return e[1] + "()"
    if k == "not":
        return "!(%s)" % rend(e[1])
    if k == "and":
        return "((%s)&&(%s))" % (rend(e[1]), rend(e[2]))
    if k == "or":
        return "((%s)||(%s))" % (rend(e[1]), rend(e[2]))
    if k == "comma":
        return "%s,%s" % (rend(e[1]), rend(e[2]))
    if k == "paren":
        return "(%s)" % rend(e[1])
    if k == "tern":
        return "((%s)?(%s):(%s))" % (rend(e[1]), rend(e[2]), rend(e[3]))
    if k in ("rel", "frel"):
        return "(%s)%s(%s)" % (rend(e[2]), e[1].strip("u"), rend(e[3]))
    if k == "bin":
        return "(%s)%s(%s)" % (rend(e[2]), e[1], rend(e[3]))
    if k == "cast":
        return "(%s)(%s)" % (e[1], rend(e[2]))
    raise AnalysisError("render %r" % (k,))


def rends(s):
    """statement -> C text"""
    k = s[0]
    if k == "empty":
        return ";"
    if k == "expr":
        return rend(s[1]) + ";"
    if k == "block":
        return "{" + " ".join(rends(x) for x in s[1]) + "}"
    if k == "if":
        t = rends(s[2])
        return "if (%s) %s" % (rend(s[1]), t) + (" else " + rends(s[3]) if s[3] else "")
    if k == "while":
        return "while (%s) %s" % (rend(s[1]), rends(s[2]))
    if k == "do":
        return "do %s while (%s);" % (rends(s[1]), rend(s[2]))
    if k == "for":
        return "for (%s;%s;%s) %s" % tuple([rend(x) if x else "" for x in s[1:4]] + [rends(s[4])])
    if k == "switch":
        return "switch (%s) %s" % (rend(s[1]), rends(s[2]))
    if k == "case":
        return "case %s:" % (s[2] if len(s) > 2 else "%d" % s[1])
    if k == "default":
        return "default:"
    if k in ("break", "continue"):
        return k + ";"
    if k == "return":
        return "return;" if s[1] is None else "return %s;" % rend(s[1])
    if k == "label":
        return s[1] + ":"
    if k == "goto":
        return "goto %s;" % s[1]
    if k == "decl":
        return "int %s = %s;" % (s[1], rend(s[2]))
    raise AnalysisError("render %r" % (k,))


BR, CN, RV = ("break",), ("continue",), ("return", None)


def X(n):
    return ("expr", call(n))


def Bl(*x):
    return ("block", list(x))


def If(c, t, f=None):
    return ("if", c, t, f)


def N(v, txt=None):
    return ("num", v, txt or str(v))


def conds(model):
    """controlling expressions"""
    a, b, c = call("a"), call("b"), call("c")
    yield "call", a
    yield "not", ("not", a)
    yield "notnot", ("not", ("not", a))
    for o in ("<", ">", "<=", ">=", "==", "!="):
        yield "rel" + o, ("rel", o, a, b)
        yield "urel" + o, ("rel", o + ("u" if o[0] in "<>" else ""), call("u"), call("v"))
        yield "relk" + o, ("rel", o, a, N(7))
        yield "rel0" + o, ("rel", o, a, N(0))
        yield "not-rel" + o, ("not", ("rel", o, a, b))
    yield "pcall", call("p")
    yield "kcall", ("kcall", "k")
    yield "and", ("and", a, b)
    yield "or", ("or", a, b)
    yield "not-and", ("not", ("and", a, b))
    yield "not-or", ("not", ("or", a, b))
    yield "and-or", ("and", ("or", a, b), c)
    yield "or-and", ("or", ("and", a, b), c)
    yield "and-rel", ("and", ("rel", "<", a, b), ("rel", ">=", c, call("d")))
    yield "or-rel", ("or", ("rel", "==", a, b), ("rel", "!=", c, call("d")))
    yield "comma", ("comma", a, b)
    yield "comma-rel", ("comma", a, ("rel", "<", b, c))
    yield "tern", ("tern", a, b, c)
    yield "tern-rel", ("tern", ("rel", "<", a, b), ("rel", ">", c, call("d")), call("e"))
    yield "sum", ("bin", "-", a, N(3))
    for v in ("0", "1", "5", "-1", "256", "32768"):
        n = int(v, 0)
        yield "const" + v, N(n, v)
    yield "constrel", N(0, "2 < 1")
    yield "assign0", N(0, "(gz = 0)")
    yield "assign1", N(1, "(gz = 1)")
    yield "constnot", N(1, "!0")
    if model != "seg16":
        yield "constbig", N(0x10000, "65536")
    if model not in ("seg16", "mips"):
        f, g = ("fcall", "f1"), ("fcall", "f2")
        yield "float", f
        yield "not-float", ("not", f)
        for o in ("<", ">", "<=", ">=", "==", "!="):
            yield "frel" + o, ("frel", o, f, g)
        yield "fand", ("and", f, a)
        yield "for", ("or", ("frel", "<", f, g), a)
    if model == "seg16":
        yield "const-wrap", N(0, "32768u + 32768u")


def loops(c):
    """statements controlled by c; the body uses s/t/w so that every edge is visible"""
    yield "if", Bl(If(c, X("s")), X("t"))
    yield "if-else", Bl(If(c, X("s"), X("t")), X("w"))
    yield "if-ret", Bl(If(c, RV), X("t"))
    yield "if-else-ret", Bl(If(c, Bl(X("s"), RV), X("t")))
    yield "if-empty-else", Bl(If(c, ("empty",), X("t")), X("w"))
    yield "while", Bl(("while", c, X("s")), X("t"))
    yield "while-bc", Bl(("while", c, Bl(If(call("e"), BR), X("s"), If(call("p"), CN), X("t"))), X("w"))
    yield "do", Bl(("do", X("s"), c), X("t"))
    yield "do-bc", Bl(("do", Bl(If(call("e"), BR), X("s"), If(call("p"), CN), X("t")), c), X("w"))
    yield "for", Bl(("for", call("s"), c, call("t"), X("w")), X("x"))
    yield "for-bc", Bl(("for", call("s"), c, call("t"), Bl(If(call("e"), BR), X("w"), If(call("p"), CN), X("y"))), X("x"))
    yield "for-no3", Bl(("for", None, c, None, Bl(If(call("e"), BR), X("w"), If(call("p"), CN), X("y"))), X("x"))
    big = call("t")
    for n in "wxtwx":
        big = ("comma", big, call(n))
    yield "for-big3", Bl(("for", call("s"), c, big, Bl(If(call("e"), BR), X("w"), If(call("p"), CN), X("y"))), X("x"))


def shapes(model):
    """the remaining statement shapes; (name, statement, return type)"""
    a, b, c, d, e = (call(n) for n in "abcde")
    yield "empty", Bl(), None
    yield "seq", Bl(X("s"), ("empty",), X("t"), Bl(X("w"), Bl(X("x"))), X("y")), None
    yield "for-ever", Bl(("for", None, None, None, Bl(If(a, BR), X("s"), If(b, CN), X("t"))), X("w")), None
    yield "for-ever3", Bl(("for", None, None, call("x"), Bl(If(a, BR), X("s"), If(b, CN), X("t"))), X("w")), None
    yield "for-ever-noexit", Bl(("for", None, None, call("x"), X("s"))), None
    # nested loops: break and continue bind to the innermost loop
    kinds = {"while": lambda c, bd: ("while", c, bd), "do": lambda c, bd: ("do", bd, c),
             "for": lambda c, bd: ("for", None, c, call("y"), bd), "for-": lambda c, bd: ("for", None, c, None, bd),
             "switch": lambda c, bd: ("switch", c, Bl(("case", 1), bd, X("y"), BR, ("case", 2), X("x")))}
    for n1, k1 in kinds.items():
        for n2, k2 in kinds.items():
            if n1 == "switch" and n2 == "switch":
                inner = Bl(If(c, BR), X("s"))
            elif n1 == "switch" and n2 != "switch" or n1 != "switch":
                inner = Bl(If(c, BR), X("s"), If(d, CN), X("t"))
            st = k1(a, Bl(X("w"), k2(b, inner), If(e, BR), X("x")))
            yield "nest-%s-%s" % (n1, n2), Bl(st, X("y")), None
            if n1 != "switch":
                st = k1(a, Bl(k2(b, X("s")), If(c, CN), X("t"), If(d, BR), X("w")))
                yield "after-%s-%s" % (n1, n2), Bl(st, X("y")), None
    # the continue of a loop reaches through two switches; a third loop level
    yield "deep-continue", Bl(("for", None, a, call("y"), Bl(("switch", b, Bl(("case", 3), ("switch", c, Bl(("case", 4), X("s"), CN, ("default",), BR)), X("t"), BR,
                              ("default",), X("w"), CN)), X("x"))), X("s")), None
    yield "three", Bl(("for", None, a, call("s"), Bl(("for", None, b, call("t"), Bl(("for", None, c, call("w"), Bl(If(d, BR), If(e, CN), X("x"))), If(call("u"), BR))),
                      If(call("v"), CN), X("y")))), None
    big = call("t")
    for n in "wxtwx":
        big = ("comma", big, call(n))
    yield "big-in-small", Bl(("for", None, a, call("s"), Bl(("for", None, b, big, Bl(If(c, CN), X("x"))), X("y")))), None
    yield "small-in-big", Bl(("for", None, a, big, Bl(("for", None, b, call("s"), Bl(If(c, CN), X("x"))), X("y")))), None
    # dangling else
    yield "dangling", Bl(If(a, If(b, X("s"), X("t"))), X("w")), None
    yield "undangled", Bl(If(a, Bl(If(b, X("s"))), X("t")), X("w")), None
    yield "else-if", Bl(If(a, X("s"), If(b, X("t"), If(c, X("w"), X("x")))), X("y")), None
    yield "else-loop", Bl(If(a, ("while", b, X("s")), ("do", X("t"), c)), X("y")), None
    # switch
    for nm, vals in (("basic", [1, 2, 3]), ("neg", [-1, 0, 1]), ("zero", [0]), ("big", [127, 128, 255, 256, -128, -129, 32767, -32768]),
                     ("huge", [0x7FFFFFFF, -0x80000000, 65536, 65535])):
        if nm == "huge" and model == "seg16":
            continue
        body = []
        for i, q in enumerate(vals):
            body += [("case", q, "(-%d - 1)" % (-q - 1) if q < -1 else str(q)), X("stw"[i % 3])] + ([BR] if i % 3 != 1 else [])
        for dn, dpos in (("none", None), ("last", len(body)), ("first", 0), ("mid", 2)):
            bd = list(body)
            if dpos is not None:
                bd[dpos:dpos] = [("default",), X("x")]
            yield "switch-%s-%s" % (nm, dn), Bl(("switch", a, Bl(*bd)), X("y")), None
    # labels on the same statement, empty statement after a label, case inside nested blocks
    yield "switch-multi", Bl(("switch", a, Bl(("case", 1), ("case", 2), ("default",), ("case", 3), X("s"), BR, ("case", 4), ("empty",))), X("y")), None
    yield "switch-skip", Bl(("switch", a, Bl(X("s"), ("case", 1), X("t"))), X("y")), None
    yield "switch-duff", Bl(("switch", a, Bl(("case", 0), ("do", Bl(X("s"), ("case", 1), X("t"), ("default",), X("w")), b))), X("y")), None
    yield "switch-single", Bl(("switch", a, ("one", ("case", 5), X("s"))), X("y")), None
    yield "switch-nobody", Bl(("switch", a, ("empty",)), X("y")), None
    yield "switch-unsigned", Bl(("switch", call("u"), Bl(("case", 1), X("s"), BR, ("case", 0x8000, "32768u"), X("t"))), X("y")), None
    yield "switch-char", Bl(("switch", ("kcall", "k"), Bl(("case", -1), X("s"), BR, ("case", 65), X("t"))), X("y")), None
    yield "switch-const", Bl(("switch", N(2), Bl(("case", 1), X("s"), BR, ("case", 2), X("t"), BR, ("default",), X("w"))), X("y")), None
    yield "switch-ret", Bl(("switch", a, Bl(("case", 1), RV, ("case", 2), X("s"), RV, ("default",), BR)), X("y")), None
    yield "switch-nested", Bl(("switch", a, Bl(("case", 1), ("switch", b, Bl(("case", 1), X("s"), BR, ("default",), X("t"))), X("w"), BR,
                              ("case", 2), X("x"), ("default",), ("switch", c, Bl(("case", 7), X("t")))))), None
    yield "switch-seq", Bl(("switch", a, Bl(("case", 1), X("s"))), ("switch", b, Bl(("case", 1), X("t"), BR, ("default",), X("x"))), X("y")), None
    yield "switch-in-case", Bl(("switch", a, Bl(("case", 1), If(b, Bl(("case", 2), X("s")), Bl(("case", 3), X("t"), BR)), ("case", 4), X("w"))), X("y")), None
    yield "switch-tern", Bl(("switch", ("tern", a, b, N(3)), Bl(("case", 3), X("s"))), X("y")), None
    # goto
    yield "goto-fwd", Bl(If(a, ("goto", "L1")), X("s"), ("label", "L1"), X("t")), None
    yield "goto-back", Bl(("label", "L1"), X("s"), If(a, ("goto", "L1")), X("t")), None
    yield "goto-two", Bl(("label", "L1"), X("s"), If(a, ("goto", "L2")), If(b, ("goto", "L1")), X("t"), ("label", "L2"), If(c, ("goto", "L1")), X("w")), None
    yield "goto-out", Bl(("while", a, Bl(("for", None, b, call("x"), Bl(If(c, ("goto", "done")), X("s"))), X("t"))), X("w"), ("label", "done"), X("y")), None
    yield "goto-in", Bl(If(a, ("goto", "L1")), ("while", b, Bl(X("s"), ("label", "L1"), X("t"))), X("w")), None
    yield "goto-block", Bl(Bl(("goto", "L2"), ("label", "L1"), X("s")), Bl(("label", "L2"), X("t"), If(a, ("goto", "L1"))), X("w")), None
    yield "goto-end", Bl(If(a, ("goto", "L1")), X("s"), ("label", "L1"), ("empty",)), None
    yield "goto-labels", Bl(X("s"), ("label", "L1"), ("label", "L2"), X("t"), If(a, ("goto", "L1")), If(b, ("goto", "L2"))), None
    yield "goto-named", Bl(If(a, ("goto", "s1")), ("label", "t"), X("w"), ("label", "s1"), X("x"), If(b, ("goto", "t"))), None
    # return
    yield "ret-last", Bl(("return", a)), "int"
    yield "ret-two", Bl(If(a, ("return", b)), ("return", c)), "int"
    yield "ret-const", Bl(If(a, ("return", N(-3, "-3"))), X("s"), ("return", N(258))), "int"
    yield "ret-loop", Bl(("while", a, Bl(If(b, ("return", c)), X("s"))), ("return", N(0))), "int"
    yield "ret-rel", Bl(If(a, ("return", ("rel", "<", b, c))), ("return", ("and", d, e))), "int"
    yield "ret-block", Bl(Bl(If(a, ("return", b))), Bl(Bl(("return", c)))), "int"
    yield "ret-unreach", Bl(("return", a), X("s"), ("return", b)), "int"
    yield "ret-in-else", Bl(If(a, Bl(X("s"), ("return", b)), Bl(("return", c)))), "int"
    yield "ret-do", Bl(("do", Bl(X("s"), ("return", a)), b)), "int"
    yield "ret-label", Bl(If(a, ("goto", "L1")), ("return", b), ("label", "L1"), ("return", c)), "int"
    yield "retv-mid", Bl(If(a, RV), X("s"), RV), None
    yield "retv-block", Bl(Bl(X("s"), If(a, RV)), X("t")), None
    for ty, bits, sg in (("char", 8, 1), ("signed char", 8, 1), ("unsigned char", 8, 0)) + ((("short", 16, 1), ("unsigned short", 16, 0)) if model != "seg16" else ()):
        yield "ret-" + ty, Bl(If(a, ("return", ("narrow", bits, sg, b))), ("return", ("narrow", bits, sg, N(200)))), ty
        yield "retc-" + ty, Bl(If(a, ("return", ("narrow", bits, sg, N(-5, "-5")))), ("return", ("narrow", bits, sg, N(0x3181)))), ty
    if model not in ("seg16", "mips"):
        yield "ret-i2f", Bl(If(a, ("return", ("i2f", b))), ("return", ("fcall", "f1"))), "float"
        yield "ret-u2f", Bl(("return", ("u2f", call("u")))), "float"
        yield "ret-f2i", Bl(If(a, ("return", ("f2i", ("fcall", "f1")))), ("return", ("fcmp", "<", ("fcall", "f1"), ("fcall", "f2")))), "int"
        yield "ret-f2u", Bl(("return", ("f2u", ("fcall", "f1")))), "unsigned"
    # conditional expressions and short circuits as statements
    yield "expr-and", Bl(("expr", ("and", a, b)), X("s")), None
    yield "expr-or", Bl(("expr", ("or", a, ("and", b, c))), X("s")), None
    yield "expr-comma", Bl(("expr", ("comma", ("comma", call("s"), a), call("t"))), X("w")), None
    # block-scope declarations with initialisers and for-declarations
    yield "decl", Bl(("decl", "l1", a), If(("lv", "l1"), X("s")), X("t")), None
    yield "decl-two", Bl(("decl", "l1", a), ("decl", "l2", b), If(("lv", "l1"), X("s")), If(("lv", "l2"), X("t"))), None
    yield "decl-shadow", Bl(("decl", "l1", a), If(c, Bl(("decl", "l1", b), If(("lv", "l1"), X("s")))), If(("lv", "l1"), X("t"))), None
    yield "decl-reuse", Bl(("decl", "l1", a), Bl(("decl", "l2", b), If(("lv", "l2"), X("s"))), Bl(("decl", "l3", c), If(("lv", "l3"), X("t"))), If(("lv", "l1"), X("w"))), None
    yield "decl-loop", Bl(("while", d, Bl(("decl", "l1", a), If(("lv", "l1"), BR), ("decl", "l2", b), If(("lv", "l2"), CN), X("t"))), X("w")), None
    yield "decl-goto", Bl(("label", "L1"), ("empty",), ("decl", "l1", a), If(("lv", "l1"), ("goto", "L1")), X("t")), None
    yield "for-decl", Bl(("fordecl", "l1", a, ("lv", "l1"), call("t"), Bl(If(b, BR), X("s"))), X("w")), None
    yield "for-decl-shadow", Bl(("decl", "l1", a), ("fordecl", "l1", b, ("lv", "l1"), call("t"), Bl(If(c, BR), X("s"))), If(("lv", "l1"), X("w"))), None


class Ref(stmt.Ref):
    def __init__(self, W, rl=False):
        stmt.Ref.__init__(self, W)
        self.env = {}
        self.rl = rl

    def both(self, x, y, k):
        """operands in either order: C leaves it unspecified"""
        if self.rl:
            return self.value(y, lambda b: self.value(x, lambda a: k(a, b)))
        return self.value(x, lambda a: self.value(y, lambda b: k(a, b)))

    def cond(self, e, t, f):
        if e[0] == "frel":
            return self.both(e[2], e[3], lambda a, b: self.node("br", stmt.fesem.fpred(e[1], a, b), t, f))
        return stmt.Ref.cond(self, e, t, f)

    def value(self, e, k):
        t = e[0]
        if t == "kcall":     # a function returning plain char: the result is widened by the callee
            nx = k(self.res(e[1]))
            return self.node("call", e[1], nx)
        if t == "narrow":
            def g(v):
                r = T.ext(self.W, v, 0, e[1])
                return k(T.sext(e[1], r, self.W) if e[2] else T.zext(e[1], r, self.W))
            return self.value(e[3], g)
        if t in ("i2f", "u2f", "f2i", "f2u"):
            return self.value(e[1], lambda v: k(stmt.fesem.fp1(t, v)))
        if t == "fcmp":
            return self.both(e[2], e[3], lambda a, b: k(T.zext(1, stmt.fesem.fpred(e[1], a, b), self.W)))
        if t == "lv":
            return k(self.env[e[1]])
        if t == "tern":
            x, y = self.value(e[2], k), self.value(e[3], k)
            return self.cond(e[1], x, y)
        return stmt.Ref.value(self, e, k)

    def scan(self, s, env):
        """declared values are fixed terms: name them before the graph is built backwards"""

    def stmt(self, s, nx, brk, cont, sw=None):
        k = s[0]
        if k == "one":
            return self.stmt(("block", list(s[1:])), nx, brk, cont, sw)
        if k == "block" and any(x[0] == "decl" for x in s[1]):
            save = dict(self.env)
            for i, x in enumerate(s[1]):
                if x[0] == "decl":
                    self.env[x[1]] = self.res(x[2][1])
            for x in reversed(s[1]):
                if x[0] == "decl":
                    n = nx
                    nx = self.value(x[2], lambda v: n)
                else:
                    nx = self.stmt(x, nx, brk, cont, sw)
            self.env = save
            return nx
        if k == "fordecl":
            save = dict(self.env)
            self.env[s[1]] = self.res(s[2][1])
            h, u = self.node("goto", None), self.node("goto", None)
            b = self.stmt(s[5], u, nx, u, sw)
            self.N[h][1] = self.cond(s[3], b, nx)
            self.N[u][1] = self.stmt(("expr", s[4]), h, None, None)
            self.env = save
            return self.value(s[2], lambda v: h)
        return stmt.Ref.stmt(self, s, nx, brk, cont, sw)


_rend, _rends = rend, rends


def rend(e):
    k = e[0]
    if k == "kcall":
        return e[1] + "()"
    if k == "narrow":
        return rend(e[3])
    if k in ("i2f", "u2f", "f2i", "f2u"):
        return rend(e[1])
    if k == "fcmp":
        return "(%s)%s(%s)" % (rend(e[2]), e[1], rend(e[3]))
    if k == "lv":
        return e[1]
    return _rend(e)


def rends(s):
    if s[0] == "one":
        return " ".join(rends(x) for x in s[1:])
    if s[0] == "fordecl":
        return "for (int %s = %s; %s; %s) %s" % (s[1], rend(s[2]), rend(s[3]), rend(s[4]), rends(s[5]))
    return _rends(s)


# forms that must be rejected
BAD = ["break;", "continue;", "case 1: s();", "default: s();", "if (a()) break;", "switch (a()) { case 1: continue; }", "switch (a()) { case 1: s(); case 1: t(); }",
       "switch (a()) { default: s(); default: t(); }", "switch (a()) { case 2: s(); case 1+1: t(); }", "goto nowhere;", "L1: s(); L1: t();", "while (s()) t();",
       "if (s()) t();", "do t(); while (s());", "for (;s();) t();", "switch (s()) { case 1: t(); }", "switch (p()) { case 1: t(); }", "switch (a()) { case b(): t(); }",
       "return a();", "{ case 1: s(); }", "if a() s();", "if (a() s();", "while () s();", "if () s();", "do s(); until (a());", "do s(); while (a())", "else s();",
       "switch () { case 1: s(); }", "for (a(); b()) s();", "goto ;", "goto 5;", "break 1;", "s()", "switch (a()) { case : s(); }", "switch (a()) { case 1 s(); }",
       "switch (a()) { default s(); }", "{ s();", "for (;;", "while (a()) { s(); } }}", "if (a()) int q = 1;"]
BADINT = ["return;", "return s();"]
GOOD = ["switch (a()) { case 1: s(); } switch (b()) { case 1: t(); }", "switch (a()) { case 1: switch (b()) { case 1: t(); default: s(); } default: w(); }",
        "while (a()) { switch (b()) { case 1: continue; } }", "L1: L2: ;", "for (;;) { if (a()) break; }", "if (p()) s();", "while (p()) s();", "switch (k()) { case 65: s(); }",
        ";;;", "{}", "switch (a()) { }", "while (0) ;", "do ; while (0);", "a(); b() + c();", "for (int i = 0; i < 3; i++) { int i; i = 1; }"]


class Flow:
    def __init__(self, f, model):
        self.f, self.model = f, model
        self.st = f.base(["-" + model], DECL % ("float f1(void); float f2(void);" if model != "seg16" else ""))

    def compile(self, text, sub=None):
        return self.f.resume(self.st.fork(), self.f.lex(text, sub))


def diag(sts, h):
    st = sts[0]
    return st.status, emit.text(st.out, h) if hasattr(emit, "text") else ""


def check_one(fl, name, s, ret):
    """-> (text, problems, nstates)"""
    text = "%s f(void) %s" % (ret or "void", rends(s))
    sts, h = fl.compile(text)
    if len(sts) != 1:
        return text, [("the compiler's behaviour is not determined by the tokens (%d paths)" % len(sts), "v0100/smlrc.c")], 0
    st = sts[0]
    if st.status != "fin":
        return text, [("is rejected: %s" % errtext(st, h), getattr(st, "errloc", None) or "v0100/smlrc.c")], 0
    m = None
    try:
        m = stmt.function_machine(fl.model, h, st, "_f")
        for rl in (False, True):
            r = Ref(m.W, rl)
            entry = r.build(s)
            msg, m2, n = stmt.compare(m.fork(), r, entry, ret is None)
            if not msg or "fcmp" not in str(s) and "frel" not in str(s):
                break
    except stmt.Bad as x:
        return text, [(str(x), m.locs[m.pc - 1] if m else "v0100/smlrc.c")], 0
    if msg:
        pc = max(0, min(m2.pc - 1, len(m2.locs) - 1))
        return text, [(msg + "; at line %d: %s" % (pc + 1, m2.L[pc]), m2.locs[pc])], n
    return text, [], n


def errtext(st, h):
    return "%s %s" % (st.status, "".join(str(x) for x in st.out[-3:]).strip()[-120:])


def flow(r):
    f = fe.FE()
    models = ["seg32", "seg16", "huge"] + (["unreal"] if r.thorough else [])
    flows = {m: Flow(f, m) for m in models}
    jobs = []
    for m in models:
        for cn, c in conds(m):
            for ln, s in loops(c):
                if m == "huge" and not r.thorough and ln not in ("if", "do", "for-bc"):
                    continue
                jobs.append((m, "%s/%s" % (ln, cn), s, None))
        for n, s, rt in shapes(m):
            jobs.append((m, n, s, rt))
    if r.thorough:
        for m in models:
            for cn, c in conds(m):
                for n1, s in loops(c):
                    for n2, w in (("while", lambda q: ("while", call("u"), q)), ("if-else", lambda q: If(call("u"), q, X("y"))),
                                  ("switch", lambda q: ("switch", call("u"), Bl(("case", 1), q, ("case", 2), X("y")))), ("do", lambda q: ("do", q, call("u")))):
                        jobs.append((m, "%s/%s/%s" % (n2, n1, cn), Bl(w(s), X("y")), None))

    def one(j):
        m, n, s, rt = j
        f.covered = set()
        try:
            t, probs, k = check_one(flows[m], n, s, rt)
        except AnalysisError as x:
            raise AnalysisError("%s %s: %s" % (m, n, x))
        return t, probs, k, f.covered
    cov = set()
    for (m, n, s, rt), (text, probs, k, c) in zip(jobs, par.pmap(one, jobs)):
        cov |= c
        r.count("functions_compiled_%s" % m)
        r.count("functions_compiled")
        r.count("product_states", k)
        if r.cover["functions_compiled"] % 211 == 1:
            r.sample("%s: %s" % (m, text))
        for msg, w in probs:
            r.violation("%s:%s" % (m, n), w if str(w).startswith("v0100") else "v0100/%s" % w, "%s: %s" % (text, msg))

    def verdict(j):
        m, text, want = j
        f.covered = set()
        sts, h = flows[m].compile(text)
        got = [x.status for x in sts]
        return got, "".join(str(x) for x in sts[0].out[-2:])[-100:], f.covered
    vj = []
    for m in models:
        for x in BAD:
            vj.append((m, "void f(void) { %s }" % x, False))
        for x in BADINT:
            vj.append((m, "int f(void) { %s }" % x, False))
        for x in GOOD:
            vj.append((m, "void f(void) { %s }" % x, True))
    for (m, text, want), (got, tail, c) in zip(vj, par.pmap(verdict, vj)):
        cov |= c
        r.count("constraint_cases")
        if got != ["fin"] and want:
            r.violation("%s:good:%s" % (m, text), "v0100/smlrc.c", "the valid function %s is rejected (%s %s)" % (text, got, tail))
        if not want and any(g == "fin" for g in got):
            r.violation("%s:bad:%s" % (m, text), "v0100/smlrc.c", "the invalid function %s is accepted" % text)
    r.cover["functions"] = sorted({x for x, b in cov})
    r.count("basic_blocks", len(cov))
    r.rule("Statement flow. ParseStatement() and everything below it (IR of smlrc) is analysed by abstract interpretation on one token stream per statement shape, "
           "with calls of opaque functions as statements and operands; the assembly text it must emit is read as a transition system with call and return events and "
           "unknown results, and the product with the control-flow graph of the C statement is explored: every path must perform the same calls in the same order, "
           "decide on the same conditions and return the same value. Ill-formed statements must end in error().")
    r.assume += ["engine/x86.py states the meaning of the instructions used; float comparison and conversion helpers are uninterpreted and total",
                 "results of opaque functions are arbitrary"]
    r.need("functions_compiled", 2000 if r.thorough else 1200)
    r.need("constraint_cases", 150)
