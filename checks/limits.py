"""F12: fixed capacities.  The whole compiler is interpreted on programs that fill each internal table to, over and around its last
slot (with unknown bytes in the last item); every memory access must stay inside its object, a program beyond the capacity must
be refused with a diagnostic, and an accepted one must yield what the compiler yields with tables twice the size."""
import re
import terms as T, fe, sai, par, emit
import lexer as X
from terms import isc, mask
from sai import P, AnalysisError, CALL, State, Interp, isfault

BIG = ("-DMAX_MACRO_TABLE_LEN=8000", "-DMAX_IDENT_TABLE_LEN=8000", "-DSYNTAX_STACK_MAX=6000", "-DMAX_IDENT_LEN=130", "-DMAX_STRING_LEN=700",
       "-DSTACK_SIZE=1600", "-DMAX_GOTO_LABELS=60", "-DMAX_CASES=400", "-DMAX_FILE_NAME_LEN=600")
CONF = dict(small=("-DMAX_MACRO_TABLE_LEN=640",), names=("-DMAX_IDENT_TABLE_LEN=260",), decls=("-DSYNTAX_STACK_MAX=120",), nat=(),
            big=BIG)
_F = {}


def tokens(F, pre, body, opts, maxsteps=30000000):
    """[(state, status, asm)] of the program pre + body, given as tokens (the lexer is not involved)"""
    st = F.base(tuple(opts), pre + " @here", key=("limits", pre) + tuple(opts))
    for o in st.mem.values():
        o.owner = None
    hk = F.hooks(emit.Holes())
    hk.update({k: v for k, v in X.libhooks().items() if k in ("strcmp", "strlen", "strcpy")})
    hk["remove"] = sai.h_nop
    I = Interp(F.M, hk, maxsteps=maxsteps)
    bad = recover(I)
    st.user = dict(st.user, toks=F.lex(body), tokpos=0, rel=X.Sets({}))
    st.out = []
    st.status = None
    r = I.resume(st)
    F.covered |= I.covered
    return [(s, s.status, [str(x) for x in s.out]) for s in r + [b for b in bad if not any(b is x for x in r)]]


def recover(I):
    bad = []

    def rec(s, e):
        if isfault(e):
            s.status = "fault:" + str(e)
            s.user["errline"] = "%s:%d" % (s.frames[-1].fn.name, getattr(s.frames[-1], "line", 0) or 0) if s.frames else None
            bad.append(s)
            return True
        return False
    I.recover = rec
    return bad


def front(key):
    if key not in _F:
        _F[key] = fe.FE("smlrc", ("-DNO_ANNOTATIONS",) + CONF[key])
    return _F[key]


class Whole(X.Lexer):
    def __init__(self, F):
        self.F, self.t = F, F.t

    def compile(self, fs, sets, opts=("-seg32",), maxsteps=30000000):
        """[(state, status, asm)] for every path of a whole compilation"""
        hk = self.hooks()
        th = self.F.hooks(emit.Holes())
        for n in ("GenDumpChar", "printf2", "d2f", "memcmp"):
            hk.pop(n, None)
            if n in th:
                hk[n] = th[n]
        hk["remove"] = sai.h_nop
        I = Interp(self.F.M, hk, maxsteps=maxsteps)
        bad = recover(I)
        st = State(self.F.M)
        st.user = dict(st.user, fs=dict(fs, **{"out.asm": ()}), tapes=(), opened=(), chars=(), fl=None, rel=X.Sets(sets))
        args = ["smlrc"] + list(opts) + ["in.c", "out.asm"]
        argv = st.newobj("argv", 8 * (len(args) + 1), "zero")
        for i, a in enumerate(args):
            o = st.newobj("arg", len(a) + 1, "zero")
            for j, c in enumerate(a):
                c = X.parse(c)[0]
                st.store(P(o.obj, j), 1, c)
            st.store(P(argv.obj, 8 * i), 8, o)
        r = I.run(st, "main", [len(args), argv])
        self.F.covered |= I.covered
        return [(s, s.status, [str(x) for x in s.out]) for s in r + [b for b in bad if not any(b is x for x in r)]]


H = X.H
ID = "abcdefghijklmnopqrstuvwxyz"


def name(n, c="q"):
    return c * n


def decls(k, f="char b%03d;"):
    return " ".join(f % i for i in range(k))


def tcase(pre, body, cmp=True, opts=("-seg32",)):
    return tuple(opts), {"tok": (pre, body), "in.c": body}, {"tok": (pre, body), "in.c": body} if cmp else None, tuple(opts)


def case(src, ref=None, opts=("-seg32",), ropts=None, fs=None, rfs=None):
    f = dict(fs or {}, **{"in.c": src + "\n"})
    g = dict(rfs if rfs is not None else (fs or {}), **{"in.c": (ref if ref is not None else src) + "\n"})
    return tuple(opts), f, g, tuple(ropts if ropts is not None else opts)


def plan(deep):
    """(family, build, lowest size, highest size, size -> case)"""
    out = []

    def add(fam, build, lo, hi, gen):
        out.append((fam, build, lo, hi, gen))
    S32 = ("-seg32",)
    # identifiers
    q = lambda n: name(n - 1) + H[0]
    IDS = {
        "identifier": lambda n: case("int %s; int w;" % q(n)), "identifier, local and label": lambda n: case("int f(int %s){ goto %s; %s: return %s; }" % ((q(n),) * 4)),
        "macro name": lambda n: case("#define %s 5\nint x = %s;" % (q(n), q(n))), "tested macro": lambda n: case("#ifdef %s\nint x;\n#endif\n#ifndef %s\nint y;\n#endif" % (q(n), q(n))),
        "removed macro": lambda n: case("#undef %s\nint y;" % q(n)), "macro option": lambda n: case("int x = %s;" % q(n), opts=("-seg32", "-D", q(n) + "=7")),
        "macro option, no value": lambda n: case("int x = %s;" % q(n), opts=("-seg32", "-D", q(n))), "pragma": lambda n: case("#pragma %s\nint y;" % q(n)),
        "member and tag": lambda n: case("struct %s { int %s; } v; int f(void){ return v.%s + sizeof(struct %s); }" % ((q(n),) * 4)),
    }
    for k, g in IDS.items():
        add("identifier: " + k, "nat", 50, 80, g)
    # strings
    s = lambda n: name(n - 1) + H[0]
    ST = {
        "string": lambda n: case('char *p = "%s"; char e[] = "%s";' % (s(n), s(n))), "string expression": lambda n: case('char *f(void){ return "%s"; }' % s(n)),
        "string escapes": lambda n: case('char *p = "%s\\n\\x41\\101";' % name(n - 2, "s")), "wide string": lambda n: case('int *p = L"%s";' % s(n)),
        "adjacent strings": lambda n: case('char *p = "%s" "%s";' % (name(n - 7), name(7))), "asm text": lambda n: case('asm("%s"); void f(void){ asm("%s"); }' % (s(n), s(n))),
        "include name": lambda n: case('#include "%s"\nint y;' % name(n), fs={name(n): "int x;\n"}, rfs={}, ref="int x;\nint y;"),
        "missing include": lambda n: case('#include "%s"\nint y;' % name(n), ref="#error"), "system include name": lambda n: case('#include <%s>\nint y;' % name(n), ref="int x;\nint y;", opts=("-seg32", "-SI", "d"), ropts=S32, fs={"d/" + name(n): "int x;\n"}, rfs={}),
        "line file name": lambda n: case('#line 5 "%s"\nint y;' % s(n)), "line file name used": lambda n: case('#line 5 "%s"\nchar *y = __FILE__;' % s(n)), "skipped string": lambda n: case('#ifdef ZZ\n"%s"\n#endif\nint y;' % s(n), ref="int y;"),
        "message": lambda n: case("#error %s" % s(n), ref="#error"), "comment": lambda n: case("/*%s*/ int y; //%s" % (s(n), s(n)), ref="int y;"),
        "character constant": lambda n: case("int x = '%s';" % name(n - 240), ref="#error" if n > 241 else None),
    }
    for k, g in ST.items():
        add("text: " + k, "nat", 240, 270, g)
    add("text: digits", "nat", 90, 270, lambda n: case("float x = %s.0;" % ("0" * (n - 1) + "5")))
    add("text: fraction digits", "nat", 90, 270, lambda n: case("float x = 0.%s;" % ("5" * n)))
    add("text: octal digits", "nat", 90, 270, lambda n: case("int x = %s;" % ("0" * (n - 1) + "5")))
    # macros

    def e(n):
        t = ("1" + "+1" * (n // 2 + 1))[:n]
        return t if t[-1] != "+" else t[:-1] + "1"
    add("macro expansion", "nat", 100, 140, lambda n: case("#define M %s\nint x = M;" % e(n), ref="int x = %s;" % e(n)))
    add("macro expansion, two", "nat", 100, 140, lambda n: case("#define M %s\n#define N 7\nint x = M; int y = N; int z = M + N;" % e(n), ref="int x = %s; int y = 7; int z = %s + 7;" % (e(n), e(n))))
    add("macro expansion of a string", "nat", 100, 140, lambda n: case('#define M "%s"\nchar x[] = M;' % name(n - 2), ref='char x[] = "%s";' % name(n - 2)))
    add("macro option expansion", "nat", 100, 140, lambda n: case("int x = M;", ref="int x = %s;" % e(n), opts=("-seg32", "-D", "M=" + e(n)), ropts=S32))
    add("macro expansion and blanks", "nat", 100, 140, lambda n: case("#define M /**/ %s  // x\nint x = M ;" % e(n), ref="int x = %s;" % e(n)))
    for depth in (2, 3, 4):
        for pre in ("", "1+"):
            def g(n, depth=depth, pre=pre):
                pad = "+1" * ((n - 4) // 2) + (" " if n % 2 else "")
                src = "".join("#define M%d %sM%d%s\n" % (i, pre, i + 1, pad) for i in range(depth)) + "#define M%d 7\nint x = M0;" % depth
                return case(src, ref="int x = %s7%s;" % (pre * depth, pad * depth))

            def g2(n, depth=depth, pre=pre):
                pad = " " * (n - 4)
                src = "".join("#define M%d %sM%d%s+1\n" % (i, pre, i + 1, pad) for i in range(depth)) + "#define M%d 7\nint x = M0;" % depth
                return case(src, ref="int x = %s7%s;" % (pre * depth, "+1" * depth))
            add("nested expansion %d %s" % (depth, pre), "nat", 20, 130, g)
            add("nested blanks %d %s" % (depth, pre), "nat", 20, 120, g2)

    def mt(n):
        d = "".join("#define m%02d %s\n" % (i, name(9, "1")) for i in range(n // 16))
        return case(d + "#define z%s %s\nint x = m00; int y = z%s;" % (name(n % 4), "1" * (1 + n % 16), name(n % 4)))
    add("macro table", "small", 16, 900, mt)
    add("macro table, empty expansions", "small", 5, 250, lambda n: case("".join("#define k%02d\n" % i for i in range(n)) + "int x = 1 k00;"))
    add("macro table, name", "small", 200, 900, lambda n: case("".join("#define m%02d %s\n" % (i, name(9, "1")) for i in range(n // 16)) + "#define z%s 1\nint x = m00; int y = z%s;" % (name(n % 16), name(n % 16))))
    add("macro table, options", "small", 5, 120, lambda n: case("int x = k00;", ref="int x = 0;", opts=S32 + sum((("-D", "k%02d=%d" % (i, i % 10)) for i in range(n)), ()), ropts=S32))
    add("macro table reuse", "small", 16, 900, lambda n: case("".join("#define m%02d %s\n" % (i, name(9, "1")) for i in range(n // 16)) + "#undef m00\n#define w %s\n#undef w\n#define v%s 3\nint z = v%s;" % ("1" * (n % 9 + 1), name(n % 16), name(n % 16))))
    # names
    k = lambda n: decls(n // 8, "char c%02d;")
    NM = {
        "globals": lambda n: case(k(n) + " int z%s; int f(void){ return c00; }" % name(n % 8)),
        "locals": lambda n: case(k(n) + " int f(void){ int a%s; { int b%s; b%s = 1; } a%s = c00; return a%s; } int g(void){ return c01; }" % ((name(n % 8),) * 5)),
        "tags": lambda n: case(k(n) + " struct s%s { char t; } v;" % name(n % 8)), "members": lambda n: case(k(n) + " struct s { char t%s; } v;" % name(n % 8)),
        "labels": lambda n: case(k(n) + " int f(void){ goto l%s; l%s: return c00; }" % ((name(n % 8),) * 2)), "parameters": lambda n: case(k(n) + " int f(int p%s){ return c00+p%s; }" % ((name(n % 8),) * 2)),
        "externs": lambda n: case(decls(n // 8, "extern char c%02d;") + " extern char e%s; int f(void){ return e%s + c00; }" % ((name(n % 8),) * 2)),
        "enums": lambda n: case(k(n) + " enum { e%s = 3 }; int x = e%s;" % ((name(n % 8),) * 2)), "implicit functions": lambda n: case(k(n) + " int f(void){ return g%s(h%s()); }" % ((name(n % 8),) * 2)),
        "used externs": lambda n: case(decls(n // 8, "extern char c%02d;") + " int f(void){ return %s; }" % "+".join(["0"] + ["c%02d" % i for i in range(min(n // 8, 30))])),
    }
    for nm, g in NM.items():
        add("name table: " + nm, "names", 24, 400, g)
    # declarations
    TL = ["int z;", "int *z;", "int z[3];", "int z[2][3];", "int z(int a, char *b);", "int z(int (*f)(int), int g(void));", "struct s { int a, *b; char c[4]; } z;", "int (*z[2])(char, int[]);",
          "enum { A, B, C } z;", "typedef int *t; t z;", "unsigned short z;", "struct u *z;", "union w { int i; char c[4]; };", "int z(int a){ int b; char c[2]; { int d; } return a; }", "int z(void){ static int a[2]; extern int q; return sizeof(int[5]); }",
          "char z[] = \"abc\";", "int z[] = {1,2,3};", "float z = 1;", "int z(int a, ...);", "int z(void){ return (int)(char)b0; }", "void z(){ goto a; a:; }", "int z(void){ return \"abc\"[1] + sizeof \"x\"; }",
          "struct s { int a; } z(struct s p){ return p; }", "void z(int a[], int (*b)[2]){ struct l { int m; } n; n.m = a[0]; }"]
    for tl in TL:
        for w, el in enumerate(("char b%d;", "char *b%d;", "char b%d[2];") if deep or tl[-1] == "}" else ("char b%d;",)):
            add("declarations %d, `%s`" % (w, tl), "decls", 2, 60, lambda n, tl=tl, el=el: tcase("", " ".join(el % j for j in range(n)) + " " + tl))
    add("many declarations", "nat", 20, 900, lambda n: tcase("", "char *b0;" + "".join("char *b%d;" % i for i in range(1, n)))) if deep else None
    # labels, cases
    l = lambda k: "".join("l%d: a++; " % i for i in range(k))
    add("labels", "nat", 4, 26, lambda n: tcase("", "int a; void f(void){ %s } void g(void){ %s }" % (l(n), l(3))))
    add("jumps", "nat", 4, 26, lambda n: tcase("", "int a; void f(void){ %s %s } void g(void){ %s }" % ("".join("goto l%d; " % i for i in range(n)), l(n), l(n))))
    add("missing labels", "nat", 4, 26, lambda n: case("int a; void f(void){ %s %s }" % ("".join("goto l%d; " % i for i in range(n)), l(n - 1)), ref="#error"))
    c = lambda a, b: " ".join("case %d:" % i for i in range(a, b))
    add("cases", "nat", 100, 160, lambda n: tcase("", "int f(int a){ switch (a) { %s return 1; default: return 2; } }" % c(0, n)))
    add("cases, nested", "nat", 100, 220, lambda n: tcase("", "int f(int a){ switch (a) { %s switch (a) { %s return 3; } %s return 1; } return 0; }" % (c(0, 40), c(0, n - 50), c(60, 70))))
    add("cases, outer", "nat", 100, 220, lambda n: tcase("", "int f(int a){ switch (a) { case 1: switch (a) { %s return 3; } %s return 1; } return 0; }" % (c(0, 100), c(5, n))))
    add("cases, twice", "nat", 100, 160, lambda n: tcase("", "int f(int a){ switch (a) { %s return 1; } switch (a) { %s return 1; } return 0; }" % (c(0, n), c(0, n))))
    # include and conditional nesting, packing

    def inc(n):
        fs = {"i%d.h" % i: '#include "i%d.h"\nint x%d;\n' % (i + 1, i) for i in range(n)}
        fs["i%d.h" % n] = "int last;\n"
        return case('#include "i1.h"\nint y;', ref="int last;\n" + "".join("int x%d;\n" % i for i in range(n - 1, 0, -1)) + "int y;", fs=fs, rfs={})
    add("include depth", "nat", 2, 16, inc)
    add("include, recursive", "nat", 2, 16, lambda n: case('#include "a.h"\nint y;', ref="#error", fs={"a.h": " " * n + '#include "a.h"\n'}))
    add("includes one after another", "nat", 2, 16, lambda n: case("".join('#include "a%d.h"\n' % i for i in range(n)) + "int y;", ref="".join("int x%d; " % i for i in range(n)) + "int y;", fs={"a%d.h" % i: "int x%d;\n" % i for i in range(n)}, rfs={}))
    add("conditional depth", "nat", 2, 16, lambda n: case("#ifndef ZZ\n" * n + "int x;\n" + "#endif\n" * n + "int y;", ref="int x; int y;"))
    add("conditional depth, else", "nat", 2, 16, lambda n: case("#ifdef ZZ\nint a;\n#else\n" * n + "int x;\n" + "#endif\n" * n + "int y;", ref="int x; int y;"))
    add("conditional depth, skipped", "nat", 2, 16, lambda n: case("#ifdef ZZ\n" * n + "int x;\n" + "#endif\n" * n + "int y;", ref="int y;"))
    add("conditional depth, mixed", "nat", 2, 16, lambda n: case("#ifndef ZZ\n" * (n // 2) + "#ifdef ZZ\n" * (n - n // 2) + "int x;\n" + "#endif\n" * n + "int y;", ref="int y;"))
    add("conditional ends", "nat", 2, 16, lambda n: case("#ifndef ZZ\n" * (n - 1) + "int x;\n" + "#endif\n" * n + "int y;", ref="#error"))
    add("conditionals one after another", "nat", 2, 20, lambda n: case("".join("#ifndef ZZ\nint x%d;\n#endif\n" % i for i in range(n)) + "int y;", ref="".join("int x%d; " % i for i in range(n)) + "int y;"))
    st = lambda i: "struct s%d { char c; int i; } v%d;" % (i, i)
    add("packing depth", "nat", 2, 26, lambda n: case("#pragma pack(2)\n" + "#pragma pack(push,1)\n" * n + st(0) + "\n#pragma pack(pop)\n" * n + st(1), ref="#pragma pack(1)\n" + st(0) + "\n#pragma pack(2)\n" + st(1)))
    add("packing depth, bare", "nat", 2, 26, lambda n: case("#pragma pack(1)\n" + "#pragma pack(push)\n" * n + st(0) + "\n#pragma pack(pop)\n" * n + st(1), ref="#pragma pack(1)\n" + st(0) + "\n#pragma pack(1)\n" + st(1)))
    add("packing pops", "nat", 12, 26, lambda n: case("#pragma pack(2)\n" + "#pragma pack(push,1)\n" * (n - 11) + st(0) + "\n#pragma pack(pop)\n" * n + st(1), ref="#error"))
    # paths
    for o in ("-I", "-SI"):
        qq = '"%s"' if o == "-I" else "<%s>"
        for a in (3, 100, 250):
            def g(n, o=o, qq=qq, a=a):
                d2 = name(max(1, n - a), "e")
                return case("#include %s\nint y;" % (qq % "a.h"), ref="int x;\nint y;", opts=("-seg32", o, name(a, "d"), o, d2), ropts=S32, fs={d2 + "/a.h": "int x;\n"}, rfs={})
            add("search path total %s %d" % (o, a), "nat", a + 2, 300, g)
        add("search paths " + o, "nat", 2, 160, lambda n, o=o, qq=qq: case("#include %s\nint y;" % (qq % "a.h"), ref="int x;\nint y;", opts=("-seg32",) + (o, "d") * (n - 1) + (o, "e"), ropts=S32, fs={"e/a.h": "int x;\n"}, rfs={}))
        add("search path and name " + o, "nat", 230, 275, lambda n, o=o, qq=qq: case("#include %s\nint y;" % (qq % name(100, "f")), ref="int x;\nint y;", opts=("-seg32", o, name(n - 101, "d")), ropts=S32, fs={name(n - 101, "d") + "/" + name(100, "f"): "int x;\n"}, rfs={}))
        add("search path and short name " + o, "nat", 230, 275, lambda n, o=o, qq=qq: case("#include %s\nint y;" % (qq % name(10, "f")), ref="int x;\nint y;", opts=("-seg32", o, name(n - 11, "d")), ropts=S32, fs={name(n - 11, "d") + "/" + name(10, "f"): "int x;\n"}, rfs={}))
    # expressions
    E = {
        "sum": lambda n: "a" + "+a" * n, "product": lambda n: "a" + "*a" * n, "parentheses": lambda n: "(" * n + "a" + ")" * n, "assignment": lambda n: "a=" * n + "1",
        "complement": lambda n: "~" * n + "a", "negation": lambda n: "- " * n + "a", "not": lambda n: "!" * n + "a", "comma": lambda n: "a" + ",a" * n, "choice": lambda n: "a?1:" * n + "2",
        "choice in": lambda n: "a?" * n + "a" + ":2" * n, "and": lambda n: "a" + "&&a" * n, "or": lambda n: "a" + "||a" * n, "subscript": lambda n: "m[" * n + "a" + "]" * n,
        "call": lambda n: "g(" * n + "a" + ")" * n, "arguments": lambda n: "h(" + ",".join("a" for _ in range(n)) + ")", "member": lambda n: "s" + "->n" * n + "->v",
        "pointer sum": lambda n: "*(p" + "+a" * n + ")", "cast": lambda n: "(char)" * n + "a", "short cast": lambda n: "(unsigned char)" * n + "(a+c)", "star": lambda n: "(int)" + "*&" * n + "p",
        "increment": lambda n: "a++" + "+a--" * n, "constants": lambda n: "a" + "+1" * n, "constants only": lambda n: "1" + "+1" * n, "shifted": lambda n: "a" + "<<a" * n, "compound": lambda n: "a+=" * n + "c", "char compound": lambda n: "c+=" * n + "a",
        "float": lambda n: "f" + "+f" * n, "float mix": lambda n: "f" + "+a" * n, "float args": lambda n: "h(" + ",".join("f" for _ in range(n)) + ")", "string args": lambda n: "h(" + ",".join('"x"' for _ in range(n)) + ")",
        "sizeof": lambda n: "a" + "+sizeof(int)" * n, "struct copy": lambda n: "t=" * n + "t,a", "comparison": lambda n: "a" + "<a" * n, "struct args": lambda n: "k(" + ",".join("t" for _ in range(n)) + ")",
        "pointer difference": lambda n: "a" + "+(p-p)" * n, "subscripts added": lambda n: "a" + "+m[a]" * n, "members added": lambda n: "a" + "+s->v" * n, "char added": lambda n: "a" + "+c" * n, "calls added": lambda n: "a" + "+g()" * n,
        "pointer increments": lambda n: "*p++" + "+*p++" * n, "pointer compound": lambda n: "a" + "+*(p+=2)" * n, "nested calls": lambda n: "h(a," * n + "a" + ")" * n, "prototyped": lambda n: "pr(a," * n + "a" + ")" * n, "returned struct": lambda n: "sr(" * n + "t" + ").v" + ",a" * 0,
        "float conversion": lambda n: "(int)(float)" * n + "a", "float condition": lambda n: "a" + "+(f<f)" * n, "chars": lambda n: "c" + "-c" * n, "deep sizeof": lambda n: "sizeof(" * n + "a" + ")" * n,
    }
    E["returned struct"] = lambda n: "sr(" * n + "t" + ")" * n + ".v"
    pre = "struct S { struct S *n; int v; } *s, t; int a, *p, m[9]; char c; int g(); int h(); int k(); float f; int pr(char, float); struct S sr(struct S); "
    for nm, f in E.items():
        few = nm in ("sum", "comma", "subscripts added", "call", "choice", "struct copy", "pointer compound", "float mix")
        for m in range(3 if deep or few else 1):      # fine steps: unary operators around the expression
            add("expression: %s (%d)" % (nm, m), "nat", 1, 160, lambda n, f=f, m=m: tcase(pre, ("int r(void){ return %s(%s); }" % ("~" * m, f(n)) if m else "int r(void){ return %s; }" % f(n))))
        if deep or few:
            add("loop expression: " + nm, "nat", 1, 40, lambda n, f=f: tcase(pre, "void r(void){ for (;;%s) for (;;%s) a++; }" % (f(n), f(n)), cmp=False))
        if deep or few:
            add("initialiser expression: " + nm, "nat", 1, 60, lambda n, f=f: tcase(pre, "void r(void){ int w = %s; if (%s) a = w; }" % (f(n), f(n))))
    for w in range(8):
        add("nested loops %d" % w, "nat", 1, 40, lambda n, w=w: tcase(pre, "void r(void){ %s a++; }" % "".join("for (;a;%s) " % ("a=a+a" + "+a" * w) for _ in range(n)), cmp=False))
    add("parameters", "nat", 1, 60, lambda n: tcase(pre, "int r(%s){ return q0; } int w(void){ return r(%s); }" % (",".join("int q%d" % i for i in range(n)), ",".join("%d" % i for i in range(n)))))
    add("nested blocks", "nat", 1, 40, lambda n: tcase(pre, "void r(void){ %s a++; %s }" % ("{ int a;" * n, "}" * n)))
    add("nested structures", "nat", 1, 40, lambda n: tcase("", "struct { %s int v; %s } w;" % ("struct {" * n, "".join("} m%d;" % i for i in range(n)))))
    add("dimensions", "nat", 1, 40, lambda n: tcase("", "char w%s; int r(void){ return w%s; }" % ("[1]" * n, "[0]" * n)))
    add("pointer levels", "nat", 1, 40, lambda n: tcase("", "char %sw; int r(void){ return %sw; }" % ("*" * n, "*" * n)))
    add("initialiser braces", "nat", 1, 40, lambda n: tcase("", "int w%s = %s1%s;" % ("[1]" * n, "{" * n, "}" * n)))
    add("string initialisers", "nat", 1, 40, lambda n: tcase("", "char *w[] = {%s};" % ",".join('"s%d"' % i for i in range(n))))
    return out


def run(key, fs, opts):
    """{assignment: (status, asm, place)} over the unknown byte, number of paths"""
    if "tok" in fs:
        r = tokens(front(key), fs["tok"][0], fs["tok"][1], opts)
        return {112: (r[0][1], r[0][2], r[0][0].user.get("errline"))} if len(r) == 1 else bug(r), 1
    W = Whole(front(key))
    fst = {k: X.parse(v) for k, v in fs.items()}
    ho = {x for v in fst.values() for x in v if not isc(x)} | {x for o in opts for x in X.parse(o) if not isc(x)}
    res = {}
    r = W.compile(fst, {h: frozenset(b"pq") for h in ho}, opts)
    for st, s, o in r:
        m = st.user["rel"].m
        for v in (b"p" if not ho else m[X.HOLES[0]]):
            if not (v in res and (res[v][0] or "").startswith("fault:")):
                res[v] = (s, o, st.user.get("errline"))
    return res, len(r)


def bug(r):
    raise AnalysisError("%d paths for one program" % len(r))


def sizes(status, lo, hi, deep):
    """sizes to judge: both sides of the first refusal, and a few others"""
    w = 14 if deep else 3
    if hi - lo <= 24:
        return list(range(lo, hi + 1))
    ns = {lo, hi} | {lo + (hi - lo) * k // 6 for k in range(1, 6) if deep}
    a, b = lo, hi
    if status(a) and not status(b):
        while b - a > 1:
            m = (a + b) // 2
            if status(m):
                a = m
            else:
                b = m
        ns |= set(range(max(lo, a - w), min(hi, b + w) + 1))
    return sorted(ns)


def strip(o):
    return [l for l in "".join(o).split("\n") if not l.startswith(";")]


def judge(fs, rfs, ropts, got, ref):
    for v, (s, o, loc) in sorted(got.items()):
        t = show(fs["in.c"], v)
        if s and s.startswith("fault:"):
            return "memory is accessed outside its object: %s" % s[6:], t, loc
        if s == "ret":
            if rfs is None or not ref and rfs["in.c"] != "#error\n":
                continue
            if rfs["in.c"] == "#error\n":
                return "the program is accepted although it must be refused", t, None
            rs, ro, rl = ref[v] if v in ref else next(iter(ref.values()))
            if rs != "ret":
                return "the program is accepted although the compiler with larger tables refuses it (%s)" % rs, t, rl
            if strip(o) != strip(ro):
                a, b = strip(o) + [""], strip(ro) + [""]
                k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), -1)
                return "the output differs from that of the compiler with larger tables: `%s` instead of `%s`" % (a[k].strip(), b[k].strip()), t, None
        elif not (s or "").startswith("diag:"):
            return "the compilation ends without a diagnostic (%s)" % s, t, loc
    return None


def limits(R):
    pl = plan(R.thorough)
    for k in CONF:
        front(k)

    def work(i):
        fam, build, lo, hi, gen = pl[i]
        memo = {}
        front(build).covered = set()
        n = lo

        def status(n):
            if n not in memo:
                opts, fs, rfs, ropts = gen(n)
                memo[n] = run(build, fs, opts)
            return all(x[0] == "ret" for x in memo[n][0].values())
        bad, paths, acc, rej = [], 0, 0, 0
        try:
            for n in sizes(status, lo, hi, R.thorough):
                ok = status(n)
                opts, fs, rfs, ropts = gen(n)
                got, np = memo[n]
                paths += np
                na = sum(x[0] == "ret" for x in got.values())
                acc += na
                rej += len(got) - na
                ref = {}
                if na and rfs and rfs["in.c"] != "#error\n" and (R.thorough or hi - lo <= 24 or n == lo or n + 2 not in memo or not status(n + 2)):
                    ref, n2 = run("big", rfs, ropts)
                    paths += n2
                r = judge(fs, rfs, ropts, got, ref)
                if r:
                    bad.append((n, opts) + r)
                    if len(bad) > 1:
                        break
        except AnalysisError as e:
            raise AnalysisError("%s, %d: %s" % (fam, n, e))
        return bad, paths, acc, rej, sorted(front(build).covered)
    cov = set()
    accf = rejf = 0
    order = sorted(range(len(pl)), key=lambda i: -pl[i][3])
    for i, (bad, np, na, nr, c) in zip(order, par.pmap(work, order, chunk=2)):
        fam = pl[i][0]
        R.count("program families")
        R.count("paths", np)
        R.count("programs accepted", na)
        R.count("programs refused", nr)
        cov |= set(c)
        accf += na > 0
        rejf += nr > 0
        R.sample("%s: %d accepted, %d refused" % (fam, na, nr))
        for n, opts, msg, t, loc in bad[:1]:
            R.violation("%s:%s" % (fam, msg[:40]), where(loc), "%s, size %d (%s): %s; program %s" % (fam, n, " ".join(opts)[:60], msg, t))
    R.count("basic blocks analysed", len(cov))
    R.count("families with accepted programs", accf)
    R.count("families with refused programs", rejf)
    R.need("programs accepted", 600)
    R.need("programs refused", 300)
    R.need("families with accepted programs", 120)
    R.need("families with refused programs", 90)
    R.rule("The whole compiler is interpreted over programs that fill each fixed table up to, at and beyond its last slot; every access must stay inside its object, a refused program must end in a diagnostic, and "
           "an accepted one must give the same code as the compiler built with larger tables gives (for the equivalent program without the limited construct where there is one).")


def show(t, v):
    t = "".join(chr(v) if c == H[0] else c for c in t)
    return repr(t if len(t) < 200 else t[:90] + " ... " + t[-100:])


def where(w):
    if not w:
        return "v0100/smlrc.c (fixed tables)"
    fn, _, ln = w.split(" < ")[0].partition(":")
    return "v0100/smlrc.c:%s (%s)" % (ln, fn)
