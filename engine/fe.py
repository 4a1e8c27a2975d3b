"""Front end of smlrc under the abstract interpreter.

GetToken() is replaced by a token source, so numeric constants can be value
numbers.  `base()` analyses the declarations once and keeps the abstract state
at a marker token; expressions and statements are then analysed from there.
"""
import re
import terms as T
from terms import isc, mask, sgn
import build, sai, emit, cgx
from sai import P, F, State, Interp, AnalysisError, END

OPTOK = {
    "<<": "tokLShift", ">>": "tokRShift", "&&": "tokLogAnd", "||": "tokLogOr", "==": "tokEQ", "!=": "tokNEQ",
    "<=": "tokLEQ", ">=": "tokGEQ", "++": "tokInc", "--": "tokDec", "->": "tokArrow", "...": "tokEllipsis",
    "*=": "tokAssignMul", "/=": "tokAssignDiv", "%=": "tokAssignMod", "+=": "tokAssignAdd", "-=": "tokAssignSub",
    "<<=": "tokAssignLSh", ">>=": "tokAssignRSh", "&=": "tokAssignAnd", "^=": "tokAssignXor", "|=": "tokAssignOr",
}
KW = {
    "break": "tokBreak", "case": "tokCase", "char": "tokChar", "continue": "tokCont", "default": "tokDefault", "do": "tokDo",
    "else": "tokElse", "extern": "tokExtern", "for": "tokFor", "if": "tokIf", "int": "tokInt", "return": "tokReturn",
    "signed": "tokSigned", "sizeof": "tokSizeof", "static": "tokStatic", "switch": "tokSwitch", "unsigned": "tokUnsigned",
    "void": "tokVoid", "while": "tokWhile", "asm": "tok_Asm", "double": "tokDouble", "enum": "tokEnum", "float": "tokFloat",
    "goto": "tokGoto", "inline": "tokInline", "long": "tokLong", "short": "tokShort", "struct": "tokStruct",
    "typedef": "tokTypedef", "union": "tokUnion", "__interrupt": "tokIntr",
}
STRLIT = re.compile(r'\s*(L?)"((?:[^"\\]|\\.)*)"')
LEX = re.compile(r"\s*(?:(\d+)([uU]?)|([A-Za-z_]\w*)|(\.\.\.|<<=|>>=|<<|>>|&&|\|\||==|!=|<=|>=|\+\+|--|->|[-*/%+&^|]=|@\w+|.))", re.S)

FPF = ["fadd", "fsub", "fmul", "fdiv", "fneg", "i2f", "u2f", "f2i", "f2u", "fcmp"]


class FE:
    def __init__(self, unit="smlrc", defs=("-DNO_ANNOTATIONS",)):
        self.M = build.load(unit, defs)
        self.t = build.Toks(self.M)
        self.unit = unit
        self.covered = set()
        self.bases = {}

    # ---- tokens
    def lex(self, text, sub=None):
        """text -> token list; @name is replaced by sub[name] (list of tokens)"""
        out = []
        i = 0
        text = text.rstrip()
        while i < len(text):
            m = STRLIT.match(text, i)
            if m:
                i = m.end()
                out.append((self.t.tokLitStrWide if m.group(1) else self.t.tokLitStr, ("str", m.group(2))))
                continue
            m = LEX.match(text, i)
            if not m:
                break
            i = m.end()
            num, u, word, op = m.groups()
            if num is not None:
                out.append((self.t.tokNumUint if u else self.t.tokNumInt, int(num)))
            elif word is not None:
                k = KW.get(word)
                out.append((self.t.by[k], None) if k and k in self.t.by else (self.t.tokIdent, word))
            elif op[0] == "@":
                s = sub.get(op[1:]) if sub else None
                out.extend(s if s is not None else [("mark", op[1:])])
            else:
                out.append((self.t.by[OPTOK[op]] if op in OPTOK else ord(op), None))
        return out

    def hooks(self, holes):
        hk = emit.text_hooks(holes)
        t = self.t

        def gettoken(I, st, a, line):
            toks = st.user["toks"]
            i = st.user["tokpos"]
            if i >= len(toks):
                return t.tokEof & mask(32)
            st.user["tokpos"] = i + 1
            tk, v = toks[i]
            if tk == "mark":
                st.status = "mark"
                return END
            if tk == t.tokIdent:
                st.putstr(P("TokenIdentName", 0), v)
                st.gset("TokenIdentNameLen", len(v))
            elif isinstance(v, tuple) and v[0] == "str":
                # the rest of the literal is read character by character
                st.user["pend"] = '"' + v[1] + '"'
                shift(st, 0)
            elif v is not None:
                st.gset("TokenValueInt", v)
            return tk & mask(32)

        def shift(st, n):
            p = st.user.get("pend", "")[n:]
            st.user["pend"] = p
            for i in range(3):
                st.store(P("CharQueue", i), 1, ord(p[i]) if i < len(p) else 1)

        def h_shift(I, st, a, line):
            shift(st, 1)
            return 0

        def h_shiftn(I, st, a, line):
            shift(st, a[0])
            return 0
        hk["GetToken"] = gettoken
        hk["ShiftChar"] = h_shift
        hk["ShiftCharN"] = h_shiftn
        hk["fopen"] = lambda I, st, a, line: P("Files", 0)
        hk["fclose"] = sai.h_nop

        def memcmp(I, st, a, line):
            for i in range(a[2]):
                x, y = st.load(P(a[0].obj, a[0].off + i), 1), st.load(P(a[1].obj, a[1].off + i), 1)
                if x != y:
                    return 1
            return 0
        hk["memcmp"] = memcmp

        def gettokenname(I, st, a, line):
            return sai.CALL
        # diagnostics
        for n in ("error", "errorInternal", "errorOpType", "errorNotLvalue", "errorUnexpectedVoid", "errorUnexpectedToken",
                  "errorVarSize", "errorDecl", "errorInit", "errorNotConst", "errorLongExpr", "errorCtrlOutOfScope",
                  "errorTagRedef", "errorChrStr", "errorStrLen", "errorFile", "errorFileName"):
            def h(I, st, a, line, n=n):
                msg = n
                if n == "error":
                    try:
                        msg = "error: " + st.cstr(a[0]).strip()
                    except AnalysisError:
                        pass
                if n == "errorInternal":
                    msg += " %r" % (a[0],)
                st.status = "diag:" + msg
                st.user["errline"] = emit.chain(st, line)
                return END
            hk[n] = h

        def warn(I, st, a, line):
            st.user["warn"] = st.user.get("warn", ()) + (st.cstr(a[0]).strip(),)
            return 0
        hk["warning"] = warn
        hk["warnFloat2Int"] = lambda I, st, a, line: 0
        for n in FPF:
            hk[n] = (lambda I, st, a, line, n=n: T.fn(n, 32, *a[:3 if n == "fcmp" else (1 if n in ("f2i", "fneg", "i2f", "u2f", "f2u") else 2)]))
        return hk

    def base(self, opts, decls, key=None):
        """abstract state at the first marker of the token stream `decls`"""
        key = key or (tuple(opts), decls)
        if key in self.bases:
            return self.bases[key].fork()
        holes = emit.Holes()
        I = Interp(self.M, self.hooks(holes), maxsteps=20000000)

        def genfin(I, st, a, line):
            st.status = "fin"
            return END
        I.hooks["GenFin"] = genfin
        st = State(self.M)
        st.user["toks"] = self.lex(decls)
        st.user["tokpos"] = 0
        argv = st.newobj("argv", 8 * (len(opts) + 4), "zero")
        for i, a in enumerate(["smlrc"] + list(opts) + ["in.c", "out.asm"]):
            o = st.newobj("arg", len(a) + 1, "zero")
            st.putstr(o, a)
            st.store(P(argv.obj, 8 * i), 8, o)
        sts = I.run(st, "main", [len(opts) + 3, argv])
        self.covered |= I.covered
        if len(sts) != 1 or sts[0].status not in ("mark", "fin"):
            raise AnalysisError("declarations are not accepted: %r" % [(s.status, s.user.get("errline")) for s in sts])
        st = sts[0]
        st.status = None
        st.ret = None
        st.user["holes0"] = holes
        self.bases[key] = st
        return st.fork()

    # ---- symbol table decoding
    def ident(self, st, off):
        return st.cstr(P("IdentTable", off))

    def syn(self, st, i):
        es = self.esz(st)
        return st.load(P("SyntaxStack0", i * es[0]), es[0]), st.load(P("SyntaxStack1", i * es[1]), es[1])

    def esz(self, st):
        g = self.M.globals
        n = build.const(self.M, "SYNTAX_STACK_MAX")
        return g["SyntaxStack0"]["size"] // n, g["SyntaxStack1"]["size"] // n

    def typ(self, st, i, depth=0):
        """decode the type at index i"""
        t = self.t
        i = sgn(i, 32)
        if depth > 20:
            raise AnalysisError("type nesting")
        if i < 0:
            return ("ptr", self.typ(st, -i, depth + 1))
        a, b = self.syn(st, i)
        s = {t.tokVoid: "void", t.tokChar: "char", t.tokSChar: "schar", t.tokUChar: "uchar", t.tokShort: "short",
             t.tokUShort: "ushort", t.tokInt: "int", t.tokUnsigned: "uint", t.tokFloat: "float"}.get(a)
        if s:
            return s
        if a == ord("*"):
            return ("ptr", self.typ(st, i + 1, depth + 1))
        if a == ord("["):
            return ("arr", self.syn(st, i + 1)[1], self.typ(st, i + 3, depth + 1))
        if a == ord("("):
            c = 1
            j = i + 1
            while c:
                x = self.syn(st, j)[0]
                c += (x == ord("(")) - (x == ord(")"))
                j += 1
            return ("fn", self.typ(st, j, depth + 1))
        if a == t.tokStructPtr:
            # tag index
            k, v = self.syn(st, b)
            return ("struct", self.ident(st, self.syn(st, b + 1)[1]))
        raise AnalysisError("type token %r" % a)

    def symbols(self, st):
        """name -> (index, 'local'|'global', offset or asm name, type)"""
        out = {}
        n = st.gget("SyntaxStackCnt")
        i = 0
        depth = 0
        while i < n:
            a, b = self.syn(st, i)
            if a in (ord("("), ord("{")):
                depth += 1
            if a in (ord(")"), ord("}")):
                depth -= 1
            if a == self.t.tokIdent and depth == 0:
                name = self.ident(st, b)
                a2, b2 = self.syn(st, i + 1) if i + 1 < n else (None, None)
                if a2 == self.t.tokLocalOfs:
                    out[name] = (i, "local", b2, i + 2)
                elif a2 == self.t.tokIdent:
                    out[name] = (i, "global", self.ident(st, b2), i + 2)
                    i += 1
                elif a2 is not None:
                    out[name] = (i, "global", name, i + 1)
            i += 1
        return out

    # ---- running a parser entry point from a base state
    def run(self, st, entry, args, holes=None, hooks=None, maxsteps=1500000):
        holes = holes or emit.Holes()
        hk = self.hooks(holes)
        if hooks:
            hk.update(hooks)
        I = Interp(self.M, hk, maxsteps=maxsteps)
        st.frames = []
        st.out = []
        st.status = None
        sts = I.run(st, entry, args)
        self.covered |= I.covered
        return sts, holes

    def resume(self, st, toks, hooks=None, maxsteps=3000000):
        """continue main() from a marker with more tokens, up to the end of the translation unit"""
        holes = emit.Holes()
        hk = self.hooks(holes)

        def genfin(I, s, a, line):
            s.status = "fin"
            return END
        hk["GenFin"] = genfin
        if hooks:
            hk.update(hooks)
        I = Interp(self.M, hk, maxsteps=maxsteps)
        st.user["toks"] = toks
        st.user["tokpos"] = 0
        st.out = []
        st.status = None
        sts = I.resume(st)
        self.covered |= I.covered
        return sts, holes

    def parse_expr(self, st, toks, option=0, option2=0):
        st.user["toks"] = toks
        st.user["tokpos"] = 1
        tk, v = toks[0]
        if tk == self.t.tokIdent:
            st.putstr(P("TokenIdentName", 0), v)
            st.gset("TokenIdentNameLen", len(v))
        elif v is not None:
            st.gset("TokenValueInt", v)
        o = [st.newobj(n, 4) for n in ("gu", "syn", "const", "val")]
        st.user["outs"] = o
        return self.run(st, "ParseExpr", [tk & mask(32)] + o + [option, option2])

    def rpn(self, st):
        n = st.gget("sp")
        out = []
        for i in range(n):
            v = st.load(P("stack", 8 * i + 4), 4)
            out.append((sgn(st.load(P("stack", 8 * i), 4), 32), sgn(v, 32) if isc(v) else v))
        return out

    def rpntext(self, st, rpn):
        out = []
        for tk, v in rpn:
            nm = self.t.name.get(tk, chr(tk) if 32 < tk < 127 else str(tk))
            if tk == self.t.tokIdent:
                out.append(self.ident(st, v))
            elif isc(v):
                out.append("%s(%d)" % (nm, sgn(v, 32)) if v else nm)
            else:
                out.append("%s(%s)" % (nm, v))
        return " ".join(out)
