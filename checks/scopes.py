"""F09: what a name means.  Programs whose identifiers are unknown letters are parsed by the interpreted front end; every path
(a set of equalities between the names) is compared with an independent reading of C's scopes, name spaces and linkage."""
import itertools, re
import terms as T, fe, sai, par, datainit, stmt
import lexer as X
from terms import isc, mask, sgn
from sai import P, AnalysisError, CALL

NAMES = "ab"
W = 4


# ---------------------------------------------------------------- programs
# items: ("V"|"SV"|"EV"|"TD"|"EN"|"EX"|"VI"|"FI"|"ST"|"UT"|"ET"|"SP"|"UP"|"SR"|"UR"|"ER"|"SS"|"MB"|"PR"|"PT"|"FD", name, k)
#        ("use", form, name) ("blk", items) ("for", name, k, items) ("fn", [(name, k)], items) ("mul", n, m) ("lab", n) ("goto", n)
STRUCTK = range(5, 100, 3)


class Emit:
    def __init__(self):
        self.t = []
        self.n = 0
        self.uses = []      # (first token, last token, form, name)

    def new(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)


def tokens(items, e, level=0):
    """text pieces; names are holes @1..; a use is recorded with its token range"""
    out = []
    for it in items:
        k = it[0]
        n = it[1] if len(it) > 1 else None
        if k in ("V", "SV", "EV", "TD"):
            out.append({"V": "", "SV": "static ", "EV": "extern ", "TD": "typedef "}[k] + "char %s[%d];" % (n, it[2]))
        elif k == "EN":
            out.append("enum { %s = %d };" % (n, it[2]))
        elif k == "EX":
            out.append("enum { %s = sizeof(%s) + %d };" % (n, n, it[2]))
        elif k == "VI":
            out.append("unsigned %s = sizeof(%s);" % (n, n))
        elif k == "FI":
            out.append("%s %s(void);" % ({4: "int", 1: "char", 8: "char", 14: "char"}[it[2]], n))
        elif k in ("ST", "UT"):
            out.append("%s %s { char c[%d]; };" % ("struct" if k == "ST" else "union", n, it[2]))
        elif k == "ET":
            out.append("enum %s { %s = 1 };" % (n, e.new("k")))
        elif k in ("SP", "UP"):
            out.append("%s %s;" % ("struct" if k == "SP" else "union", n))
        elif k in ("SR", "UR", "ER"):
            out.append("%s %s *%s;" % ({"S": "struct", "U": "union", "E": "enum"}[k[0]], n, it[3]))
        elif k == "SS":
            out.append("struct %s { char c[%d]; struct %s *p; } %s;" % (n, it[2], n, it[3]))
        elif k == "MB":
            out.append("struct { char %s[%d]; } %s;" % (n, it[2], it[3]))
        elif k == "MB2":
            out.append("struct { char %s[%d]; int %s; } %s;" % (n, it[2], it[4], it[3]))
        elif k == "PR":
            out.append("int %s(struct Z%d %s);" % (e.new("p"), it[2], n))
        elif k == "PF":
            out.append("int %s(struct Z%d %s, int (*%s)(int));" % (e.new("p"), it[2], n, it[3]))
        elif k == "PN":
            out.append("int %s(int (*%s)(struct Z%d %s, int (*)(int)), int);" % (e.new("p"), it[3], it[2], n))
        elif k == "PV":
            out.append("int (*%s)(struct Z%d %s, int (*%s)(int));" % (e.new("p"), it[2], n, it[3]))
        elif k == "PT":
            out.append("char (*%s)[%d];" % (n, it[2]))
        elif k == "mul":
            out.append("%s * %s;" % (n, it[2]))
        elif k == "lab":
            out.append("%s: ;" % n)
        elif k == "goto":
            out.append("goto %s;" % n)
        elif k == "raw":
            out.append(n)
        elif k == "use":
            f, nm = it[1], it[2]
            tx = {"SZ": "sizeof(%s);", "VAL": "%s;", "ADR": "return (int)&%s;", "CSZ": "sizeof(%s());", "CALL": "%s();", "SST": "sizeof(struct %s);", "SUT": "sizeof(union %s);", "SET": "sizeof(enum %s);",
                  "DSZ": "sizeof(*%s);"}.get(f)
            if f == "DOT":
                tx = "sizeof(" + it[3] + ".%s);"
            if level == 0:
                w = e.new("w")
                tx = "int %s = %s" % (w, tx)
                out.append(("usef", tx % nm, it, w))
            else:
                out.append(("use", tx % nm, it))
        elif k == "blk":
            out.append("{")
            out += tokens(it[1], e, level + 1)
            out.append("}")
        elif k == "for":
            out.append("for (char %s[%d];;) {" % (it[1], it[2]))
            out += tokens(it[3], e, level + 1)
            out.append("}")
        elif k == "fn":
            f = e.new("f")
            out.append("int %s(%s) {" % (f, ", ".join("struct Z%d %s" % (k2, n2) if isinstance(k2, int) else "int (*%s)(struct Z%d %s, int (*)(int))" % (n2, k2[1], k2[0])
                                                      for n2, k2 in it[1]) or "void"))
            out += tokens(it[2], e, 1)
            out.append("}")
        elif k == "FD":
            out.append("%s %s(void) {" % ({4: "int", 1: "char"}[it[2]], n))
            out += tokens(it[3], e, 1)
            out.append("}")
        else:
            raise AssertionError(it)
    return out


# ---------------------------------------------------------------- C's reading
class Bad(Exception):
    pass


class Any(Exception):
    pass


class Ent:
    def __init__(self, kind, k, name, sym=None):
        self.kind, self.k, self.name, self.sym = kind, k, name, sym   # kind: auto static ext(var with linkage) fn td en
        self.static = self.defined = self.hasbody = False


class Tag:
    def __init__(self, kind, k):
        self.kind, self.k = kind, k


class Scope:
    def __init__(self, up):
        self.up, self.ord, self.tag = up, {}, {}


class Ref:
    """expected meaning of the uses; raises Bad where C's constraints (as the compiler checks them) are violated"""

    def __init__(self, a):
        self.a = a          # hole -> letter
        self.uses = []      # expected (form, what)
        self.alive = []
        self.ents = []
        self.globals = {}   # symbol -> 'exported' | 'local'
        self.refd = set()
        self.mayref = set()
        self.links = {}     # entities with linkage, by name
        self.implicit = set()

    def nm(self, n):
        return self.a.get(n, n)

    def find(self, s, n):
        while s:
            if n in s.ord:
                return s.ord[n]
            s = s.up
        return None

    def findtag(self, s, n):
        c = s
        while s:
            if n in s.tag:
                return s.tag[n], s is c
            s = s.up
        return None, False

    def run(self, items):
        self.file = Scope(None)
        self.body(items, self.file)

    def declare(self, s, n, e):
        if n in self.implicit:
            raise Any
        p = s.ord.get(n)
        linked = e.kind in ("ext", "fn")
        if p:
            if not linked or p.kind not in ("ext", "fn"):
                raise Bad("redeclared")
            if p.kind != e.kind or p.k != e.k:
                raise Bad("conflicting types")
            if s.up is None:
                if e.static and not p.static:
                    raise Any
                if p.static and not e.static and e.defined:
                    raise Any
                if e.defined and p.defined and e.kind == "ext":
                    raise Any           # tentative definitions are not supported
                if e.hasbody and p.hasbody:
                    raise Bad("two bodies")
                e.static |= p.static
            e.defined |= p.defined
            e.hasbody |= p.hasbody
            e.sym = p.sym
        if linked and s.up is not None and not p:
            v = self.file.ord.get(n)
            # another visible declaration with linkage
            q, seen = s.up, False
            while q:
                o = q.ord.get(n)
                if o and o.kind in ("ext", "fn"):
                    if o.kind != e.kind or o.k != e.k:
                        raise Bad("conflicting types")
                    e.static, e.defined, e.hasbody = o.static, o.defined, o.hasbody
                    seen = True
                    break
                q = q.up
            if not seen and n in self.links and (self.links[n].kind != e.kind or self.links[n].k != e.k):
                raise Any               # the other declaration is out of scope
        if linked:
            o = self.links.get(n)
            if o and (o.kind != e.kind or o.k != e.k):
                raise Any
            if o:
                e.static |= o.static
                e.defined |= o.defined
                e.hasbody |= o.hasbody
            self.links[n] = e
        s.ord[n] = e

    def newauto(self, s, n, kind, k, size):
        e = Ent(kind, k, n)
        e.size = size
        self.declare(s, n, e)
        if kind == "auto":
            self.ents.append((e, s))
        return e

    def tagref(self, s, kind, n, enumok=True):
        """kind name without a body: the tag it denotes, or None when it declares a new one"""
        t, cur = self.findtag(s, n)
        if t and t.kind != kind:
            if cur:
                raise Bad("tag kind")
            raise Any
        return t

    def tagsof(self, s):
        while s:
            yield from s.tag.values()
            s = s.up

    def size(self, e):
        if e.kind in ("auto", "static", "ext", "td"):
            return e.k
        if e.kind == "en":
            return W
        return None

    def body(self, items, s):
        file = s.up is None
        for it in items:
            k = it[0]
            if k in ("V", "SV", "EV", "TD", "PT"):
                n = self.nm(it[1])
                if k == "TD":
                    e = Ent("td", it[2], n)
                    self.declare(s, n, e)
                elif k == "EV" or file:
                    e = Ent("ext", it[2] if k != "PT" else ("pt", it[2]), n, n)
                    e.static, e.defined = k == "SV", k != "EV"
                    self.declare(s, n, e)
                elif k == "PT":
                    e = self.newauto(s, n, "auto", ("pt", it[2]), W)
                else:
                    self.newauto(s, n, "auto" if k == "V" else "static", it[2], it[2])
            elif k == "EN":
                n = self.nm(it[1])
                e = Ent("en", it[2], n)
                self.declare(s, n, e)
            elif k == "EX":
                n = self.nm(it[1])
                e = self.find(s, n)
                if e is None:
                    raise Bad("undeclared")
                z = self.size(e)
                if z is None or isinstance(z, tuple):
                    raise Any
                self.declare(s, n, Ent("en", z + it[2], n))
            elif k == "VI":
                n = self.nm(it[1])
                e = self.newauto(s, n, "auto", W, W)
                self.uses.append(("INIT", ("const", W)))
            elif k == "FI":
                n = self.nm(it[1])
                e = Ent("fn", 4 if it[2] == 4 else 1, n, n)
                self.declare(s, n, e)
            elif k in ("ST", "UT", "SS"):
                n = self.nm(it[1])
                kind = "union" if k == "UT" else "struct"
                t = s.tag.get(n)
                if t and t.kind != kind:
                    raise Bad("tag kind")
                if t and t.k is not None:
                    raise Bad("tag redefined")
                if not t:
                    t = s.tag[n] = Tag(kind, None)
                t.k = it[2]
                if k == "SS":
                    t.k = -(-it[2] // W) * W + W
                    v = Ent("auto", ("ss", t), it[3])
                    s.ord[it[3]] = v
            elif k == "ET":
                n = self.nm(it[1])
                if n in s.tag:
                    raise Bad("tag redefined")
                s.tag[n] = Tag("enum", W)
            elif k in ("SP", "UP"):
                n = self.nm(it[1])
                kind = "struct" if k == "SP" else "union"
                t = s.tag.get(n)
                if t and t.kind != kind:
                    raise Bad("tag kind")
                if not t:
                    o, _ = self.findtag(s, n)
                    if o and o.kind != kind and file:
                        raise Bad("tag kind")
                    s.tag[n] = Tag(kind, None)
            elif k in ("SR", "UR", "ER"):
                n = self.nm(it[1])
                kind = {"S": "struct", "U": "union", "E": "enum"}[k[0]]
                t = self.tagref(s, kind, n)
                if not t:
                    if kind == "enum":
                        raise Bad("unknown enum")
                    t = s.tag[n] = Tag(kind, None)
                s.ord[it[3]] = Ent("auto", ("ptag", t), it[3])
            elif k in ("MB", "MB2"):
                n = self.nm(it[1])
                if k == "MB2" and self.nm(it[4]) == n:
                    raise Bad("member redeclared")
                s.ord[it[3]] = Ent("auto", ("mb", {n: it[2]} if k == "MB" else {n: it[2], self.nm(it[4]): W}), it[3])
            elif k == "PR":
                pass
            elif k in ("PF", "PN", "PV"):
                if self.nm(it[1]) == self.nm(it[3]):
                    raise Any
            elif k == "mul":
                n, m = self.nm(it[1]), self.nm(it[2])
                e = self.find(s, n)
                if e is None:
                    raise Bad("undeclared")
                if e.kind == "td":
                    self.newauto(s, m, "auto", ("pt", e.k), W)
                else:
                    o = self.find(s, m)
                    if o is None or e.kind != "en" or o.kind != "en":
                        raise Bad("operands")
            elif k == "lab":
                n = self.nm(it[1])
                if n in self.labels:
                    raise Bad("label")
                self.labels.add(n)
            elif k == "goto":
                self.gotos.add(self.nm(it[1]))
            elif k == "raw":
                pass
            elif k == "use":
                self.use(s, it, file)
            elif k == "blk":
                self.inner(it[1], Scope(s))
            elif k == "for":
                c = Scope(s)
                self.newauto(c, self.nm(it[1]), "auto", it[2], it[2])
                self.inner(it[3], Scope(c))
            elif k in ("fn", "FD"):
                c = Scope(s)
                if k == "FD":
                    n = self.nm(it[1])
                    e = Ent("fn", it[2], n, n)
                    e.defined = e.hasbody = True
                    self.declare(s, n, e)
                self.labels, self.gotos = set(), set()
                self.alive = []
                for n2, k2 in it[1] if k == "fn" else []:
                    n2 = self.nm(n2)
                    if n2 in c.ord:
                        raise Bad("parameter twice")
                    if isinstance(k2, int):
                        self.newauto(c, n2, "auto", k2, k2).struct = True
                    else:
                        self.newauto(c, n2, "auto", ("pt", 1), W).struct = True
                self.inner(it[2] if k == "fn" else it[3], c)
                if self.gotos - self.labels:
                    raise Bad("undefined label")
            else:
                raise AssertionError(it)

    def inner(self, items, s):
        self.body(items, s)

    def use(self, s, it, file):
        f = it[1]
        n = self.nm(it[2])
        if f in ("SST", "SUT", "SET"):
            kind = {"S": "struct", "U": "union", "E": "enum"}[f[1]]
            t = self.tagref(s, kind, n)
            if t is None or t.k is None:
                raise Bad("incomplete type")
            return self.uses.append((f, ("const", t.k)))
        e = self.find(s, n)
        if f == "DSZ":
            if e is None or e.kind in ("en", "td") or getattr(e, "struct", 0):
                raise Bad("dereference")
            if isinstance(e.k, tuple) and e.k[0] == "pt":
                return self.uses.append((f, ("const", e.k[1])))
            if isinstance(e.k, tuple) and e.k[0] == "ptag":
                if e.k[1].k is None:
                    if any(q.k is not None for q in self.tagsof(s)):
                        raise Any
                    raise Bad("incomplete type")
                return self.uses.append((f, ("const", e.k[1].k)))
            if e.kind == "fn" or isinstance(e.k, tuple):
                raise Any
            return self.uses.append((f, ("const", 1)))
        if f == "DSS":
            return
        if f == "DOT":
            o = self.find(s, it[3])
            if not (o and isinstance(o.k, tuple) and o.k[0] == "mb"):
                raise Any
            if n not in o.k[1]:
                raise Bad("no member")
            return self.uses.append((f, ("const", o.k[1][n])))
        if e is None:
            if f in ("CSZ", "CALL") and not file:
                # declared implicitly as int n()
                if n in self.links and (self.links[n].kind != "fn" or self.links[n].k != 4):
                    raise Any
                e = self.links.get(n) or Ent("fn", 4, n, n)
                self.links[n] = e
                self.implicit.add(n)
            elif n in self.implicit or f == "CSZ":
                raise Any
            else:
                raise Bad("undeclared")
        z = self.size(e)
        if f == "SZ":
            if e.kind == "fn":
                raise Any
            if isinstance(z, tuple):
                z = W if z[0] in ("pt", "ptag") else None
            if z is None:
                raise Any
            return self.uses.append((f, ("const", z)))
        if f in ("CSZ", "CALL"):
            if e.kind != "fn":
                raise Bad("call of an object")
            if file and f == "CALL":
                raise Bad("call in a constant")
            if f == "CALL":
                self.refd.add(n)
            return self.uses.append((f, ("const", W if e.k == 4 else e.k) if f == "CSZ" else ("sym", n)))
        if f in ("VAL", "ADR"):
            if e.kind == "td":
                raise Bad("type as value")
            if e.kind == "en":
                if f == "ADR":
                    raise Bad("address of a constant")
                return self.uses.append((f, ("const", e.k)))
            if file:
                raise Any
            if e.kind in ("ext", "fn"):
                (self.mayref if f == "VAL" else self.refd).add(n)
                return self.uses.append((f, ("sym", n)))
            return self.uses.append((f, (e.kind, e)))
        raise AssertionError(f)


# ---------------------------------------------------------------- the analysis
class Scopes:
    def __init__(self, model):
        opts, self.pre = {"seg32": (["-seg32"], "_"), "seg16": (["-seg16"], "_"), "huge": (["-huge"], "_")}[model]
        self.F = datainit.front(model)
        self.t = self.F.t
        self.model = model
        self.base = self.F.base(tuple(opts), " ".join("struct Z%d { char c[%d]; };" % (k, k) for k in (5, 8, 11, 14)) + " @here", key=("scopes", model))

    def hooks(self):
        hk = self.F.hooks(X.emit.Holes())
        get = hk["GetToken"]
        t = self.t

        def gettoken(I, st, a, line):
            toks, i = st.user["toks"], st.user["tokpos"]
            if i < len(toks) and isinstance(toks[i][1], T.Term):
                st.user["tokpos"] = i + 1
                st.store(P("TokenIdentName", 0), 1, toks[i][1])
                st.store(P("TokenIdentName", 1), 1, 0)
                st.gset("TokenIdentNameLen", 1)
                return t.tokIdent
            return get(I, st, a, line)

        def genexpr(I, st, a, line):
            out = []
            for tk, v in self.F.rpn(st):
                out.append((t.name.get(tk, chr(tk) if 32 < tk < 127 else str(tk)), self.F.ident(st, v) if tk == t.tokIdent else v))
            st.user["obs"] = st.user["obs"] + ((st.user["tokpos"], tuple(out)),)
            return CALL
        return dict(X.libhooks(), GetToken=gettoken, GenExpr=genexpr, GenFin=lambda I, st, a, line: CALL)

    def lex(self, items):
        e = Emit()
        toks, marks, text = [], [], []
        sub = {str(i): [(self.t.tokIdent, h)] for i, h in enumerate(X.HOLES)}
        for p in tokens(items, e):
            tx = p if isinstance(p, str) else p[1]
            lo = len(toks)
            toks += self.F.lex(tx, sub)
            text.append(tx)
            if not isinstance(p, str):
                marks.append((lo, len(toks), p))
            elif tx.startswith("unsigned "):
                marks.append((lo, len(toks), ("init",)))
        return toks, marks, " ".join(text)

    def run(self, items, nholes, names=NAMES):
        """[(message, text, where)], paths, programs"""
        toks, marks, text = self.lex(items)
        st = self.base.fork()
        al = frozenset(ord(c) for c in names)
        hs = X.HOLES[:nholes]
        st.user = dict(st.user, rel=X.Sets({h: al for h in hs}), obs=())
        sts, holes = self.F.resume(st, toks, self.hooks())
        seen = 0
        out = []
        for s in sts:
            m = s.user["rel"].m
            facts = [(c, v) for c, v in s.facts.items() if not isc(c) and X.holes(c)]
            for vs in itertools.product(*[sorted(m[h]) for h in hs]):
                a = dict(zip(hs, vs))
                if any(T.subst(c, a) != v for c, v in facts):
                    continue
                seen += 1
                b = {"@%d" % i: chr(v) for i, v in enumerate(vs)}
                r = self.judge(s, items, marks, b, holes)
                if r:
                    tx = text
                    for k, v in b.items():
                        tx = tx.replace(k, v)
                    out.append((r, tx, s.user.get("errline", "")))
                    if len(out) > 2:
                        return out, len(sts), seen
        if seen != len(al) ** nholes:
            raise AnalysisError("the paths cover %d of %d programs: %s" % (seen, len(al) ** nholes, text))
        return out, len(sts), seen

    def judge(self, s, items, marks, b, holes):
        global W
        W = 2 if self.model == "seg16" else 4
        R = Ref(b)
        exp = None
        try:
            R.run(items)
        except Bad as e:
            exp = str(e)
        except Any:
            exp = 0
        if s.status != "ret":
            if not str(s.status).startswith("diag:"):
                return "analysis ends with %r" % (s.status,)
            if "nternal" in s.status:
                return "the compiler stops with an %s" % s.status[5:]
            return None if exp is not None else "a valid program is rejected (%s)" % s.status[5:]
        if exp == 0:
            return None
        if exp:
            return "an invalid program (%s) is accepted" % exp
        if len(R.uses) != len(marks):
            raise AnalysisError("uses %r marks %r" % (R.uses, marks))
        obs = dict(s.user["obs"])
        try:
            M = datainit.parse(s, holes)
        except datainit.Asm as e:
            return "bad assembly: %s" % e
        place = {}
        for (lo, hi, p), (f, w) in zip(marks, R.uses):
            if p[0] == "usef":
                try:
                    al, vals, n, sec = datainit.objbytes(M, self.pre + p[3])
                except datainit.Asm as e:
                    return str(e)
                got = [(v, sz) for _, sz, k, v, _ in vals if k in ("num", "addr")]
                want = w[1] if w[0] == "const" else None
                if len(got) != 1 or got[0] != (want, W):
                    return "`%s` has the value %s instead of %s" % (p[1], got[0][0] if got else "nothing", want)
                continue
            r = obs.get(hi)
            if r is None:
                return "no code for `%s`" % (p[1] if len(p) > 1 else "the initialiser")
            name = p[1] if len(p) > 1 else "the initialiser"
            if w[0] == "const":
                c = [v for k, v in r if k in ("tokNumInt", "tokNumUint")]
                if c != [w[1]] or any(k == "tokIdent" for k, v in r):
                    return "`%s` is %s instead of %d" % (name, c[0] if len(c) == 1 else r, w[1])
            elif w[0] == "sym":
                c = [v for k, v in r if k == "tokIdent"]
                if c != [w[1]]:
                    return "`%s` denotes %s instead of the symbol %s" % (name, r, w[1])
            elif w[0] == "static":
                c = [v for k, v in r if k == "tokIdent"]
                if len(c) != 1 or not c[0].isdigit():
                    return "`%s` denotes %s instead of a static object" % (name, r)
                lab = [l for l in M.labels if re.match(r"^\D*%s$" % c[0], l)]
                if len(lab) != 1:
                    return "the static object of `%s` has no storage" % name
                n = datainit.objbytes(M, lab[0])[2]
                if n != w[1].k:
                    return "`%s` denotes a static object of %d bytes instead of %d" % (name, n, w[1].k)
                place.setdefault(w[1], set()).add(("static", c[0]))
            else:
                c = [v for k, v in r if k == "tokLocalOfs"]
                if len(c) != 1:
                    return "`%s` denotes %s instead of an automatic object" % (name, r)
                place.setdefault(w[1], set()).add(("auto", c[0]))
        for e, ps in place.items():
            if len(ps) != 1:
                return "%s denotes different places in one scope" % e.name
        ps = [(e, next(iter(p))) for e, p in place.items()]
        sc = dict(R.ents)
        order = {e: i for i, (e, _) in enumerate(R.ents)}
        for i, (e, p) in enumerate(ps):
            for e2, p2 in ps[:i]:
                if p[0] != p2[0]:
                    continue
                if p[0] == "static":
                    if p == p2:
                        return "two static objects share their storage"
                    continue
                a, b = (e, e2) if order[e] < order[e2] else (e2, e)
                if not up(sc[a], sc[b]):
                    continue        # the earlier one is dead when the later one is declared
                lo, lo2 = p[1], p2[1]
                if lo < lo2 + e2.size and lo2 < lo + e.size:
                    return "automatic objects of %d and %d bytes named %s and %s overlap" % (e.size, e2.size, e.name, e2.name)
        got = {l.split()[1][len(self.pre):] for l, _ in stmt.lines(s) if l.startswith("global")}
        ext = {l.split()[1][len(self.pre):] for l, _ in stmt.lines(s) if l.startswith("extern")}
        for n in NAMES:
            e = R.links.get(n)
            want = bool(e and e.defined and not e.static)
            if (n in got) != want:
                return "%s is %sexported" % (n, "" if n in got else "not ")
            if (n in ext) != (n in R.refd and not (e and e.defined)) and not (n in ext and n in R.mayref and not (e and e.defined)):
                return "%s is %sdeclared external" % (n, "" if n in ext else "not ")
            if e and e.defined:
                if self.pre + n not in M.labels and e.kind == "ext":
                    return "%s has no storage" % n
                if e.kind == "ext":
                    z = datainit.objbytes(M, self.pre + n)[2]
                    k = W if isinstance(e.k, tuple) else e.k
                    if z != k:
                        return "%s has %d bytes instead of %d" % (n, z, k)
        return None


def up(a, b):
    while b:
        if a is b:
            return True
        b = b.up
    return False


# ---------------------------------------------------------------- the programs
def plan(deep):
    out = []
    N = ["@%d" % i for i in range(6)]

    def add(items, n):
        out.append((items, n))
    ORD = {"V": "SZ VAL ADR", "SV": "SZ ADR", "EV": "SZ VAL ADR", "TD": "SZ VAL", "EN": "SZ VAL", "FI": "CSZ VAL CALL", "PT": "DSZ SZ"}
    TAGS = {"ST": "SST", "UT": "SUT", "ET": "SET", "SP": "SST SUT", "SR": "SST"}

    def item(k, n, kk, uid):
        if k == "FI":
            kk = {5: 4, 8: 1, 11: 4, 14: 1}[kk]
        if k in ("SR", "UR", "ER"):
            return (k, n, 0, "r%d" % uid)
        return (k, n, kk)

    def forms(*ks):
        f = []
        for k in ks:
            for x in (ORD.get(k) or TAGS.get(k)).split():
                if x not in f:
                    f.append(x)
        return f
    # two declarations in one scope
    for group in (list(ORD), list(TAGS) + ["UP", "UR", "ER"]):
        for d1, d2 in itertools.product(group, repeat=2):
            for k2 in ((5, 8) if d1 in ("V", "EV", "SV", "FI") and d2 in ("V", "EV", "SV", "FI") else (8,)):
                fs = forms(*[d for d in (d1, d2) if d in ORD or d in TAGS]) or ["SST"]
                for f in fs:
                    a, b = item(d1, N[0], 5, 1), item(d2, N[1], k2, 2)
                    add([("fn", [], [a, b, ("use", f, N[2])])], 3)
                    if f in ("SZ", "CSZ", "DSZ") or f in TAGS or f[0] == "S":
                        add([a, b, ("use", f, N[2])], 3)
                    if deep or f in ("ADR", "CALL"):
                        add([a, b, ("fn", [], [("use", f, N[2])])], 3)
                        add([a, ("fn", [], [("use", f, N[2])]), b, ("fn", [], [("use", f, N[2])])], 3)
                        add([("fn", [], [("blk", [a, b, ("use", f, N[2])])])], 3)
    # an outer and an inner declaration
    for group in (list(ORD), list(TAGS) + ["UP", "UR", "ER"]):
        for d1, d2 in itertools.product(group + (["PAR"] if group[0] == "V" else []), group):
            for k2 in ((5, 8) if d1 in ("V", "EV", "SV", "FI") and d2 in ("EV", "FI") else (8,)):
                for f in forms(*[d for d in (d1, d2) if d in ORD or d in TAGS]) or ["SST"]:
                    u, v = ("use", f, N[2]), ("use", f, N[2])
                    b = item(d2, N[1], k2, 2)
                    if d1 == "PAR":
                        add([("fn", [(N[0], 5)], [b, u])], 3)
                        add([("fn", [(N[0], 5)], [("blk", [b, u]), v])], 3)
                        continue
                    a = item(d1, N[0], 5, 1)
                    add([a, ("fn", [], [b, u])], 3)
                    add([("fn", [], [a, ("blk", [b, u]), v])], 3)
                    if deep:
                        add([a, ("fn", [], [("blk", [b, u]), v]), ("fn", [], [v])], 3)
                        add([("fn", [], [("blk", [a, ("blk", [b, u]), v])])], 3)
                        add([("fn", [], [("blk", [a, u]), ("blk", [b, v])])], 3)
    # three levels
    for d1, d2, d3 in itertools.product(["V", "TD", "EN", "EV"] + (["SV"] if deep else []), ["V", "SV", "TD", "EN", "EV"], ["V", "SV", "TD", "EN", "EV"] if deep else ["V", "TD", "EV"]):
        for f in ("SZ", "VAL") if deep else ("SZ",) if "TD" in (d1, d2, d3) else ("VAL",):
            a, b, c = (d1, N[0], 5), (d2, N[1], 5 if d2 == "EV" else 8), (d3, N[2], 5 if d3 == "EV" else 11)
            add([a, ("fn", [], [b, ("blk", [c, ("use", f, N[3])]), ("use", f, N[3])]), ("fn", [], [("use", f, N[3])])], 4)
    # parameters
    for f in ("SZ", "VAL"):
        add([("fn", [(N[0], 5), (N[1], 8)], [("use", f, N[2])])], 3)
        add([("V", N[0], 5), ("fn", [(N[1], 8)], [("use", f, N[2]), ("blk", [("V", N[2], 11), ("use", f, N[1])]), ("use", f, N[0])]), ("fn", [(N[2], 14)], [("use", f, N[0])])], 3)
        add([("V", N[0], 5), ("PR", N[1], 8), ("fn", [], [("use", f, N[2])])], 3)
        add([("PR", N[0], 8), ("fn", [], [("use", f, N[1])])], 2)
        add([("fn", [], [("PR", N[0], 8), ("V", N[1], 5), ("use", f, N[2])])], 3)
        add([("fn", [], [("V", N[0], 5), ("PR", N[1], 8), ("use", f, N[2])])], 3)
        add([("TD", N[0], 5), ("fn", [(N[1], 8)], [("use", f, N[2])]), ("fn", [], [("use", f, N[0])])], 3)
        add([("EN", N[0], 5), ("fn", [(N[1], 8)], [("use", f, N[2])]), ("fn", [], [("use", f, N[0])])], 3)
        # lists of parameters inside lists of parameters
        for o in ("V", "TD", "EN"):
            for q in ("PF", "PN", "PV"):
                add([(o, N[0], 5), (q, N[1], 8, "q"), ("fn", [], [("use", f, N[2])])], 3)
                if f == "SZ":
                    add([(o, N[0], 5), (q, N[1], 8, N[2]), ("use", f, N[0])], 3)
                    add([(o, N[0], 5), (q, "q", 8, N[1]), ("TD", N[2], 11), ("fn", [], [("use", f, N[2]), ("use", f, N[0])])], 3)
                add([("fn", [], [(o, N[0], 5), (q, N[1], 8, "q"), ("use", f, N[2])])], 3)
                if o == "TD":
                    add([(o, N[0], 5), (q, N[1], 8, "q"), ("fn", [], [("mul", N[2], N[1])])], 3)
                    add([("fn", [], [(o, N[0], 5), (q, "q", 8, N[1]), ("mul", N[2], "x")])], 3)
            add([(o, N[0], 5), ("fn", [("r", (N[1], 8)), ("s", 11)], [("use", f, N[2])]), ("fn", [], [("use", f, N[2])])], 3)
        add([("fn", [(N[0], 5), ("r", (N[1], 8))], [("use", f, N[2])])], 3)
        add([("fn", [("r", (N[1], 8)), (N[0], 5)], [("use", f, N[2])])], 3)
        # for loops
        for o in ("V", "TD", "EN", "SV"):
            add([("fn", [], [(o, N[0], 5), ("for", N[1], 8, [("use", f, N[2])]), ("use", f, N[2])])], 3)
            add([("fn", [], [("for", N[1], 8, [(o, N[0], 5), ("use", f, N[2])]), ("V", N[1], 11), ("use", f, N[1])])], 3)
        add([("fn", [(N[0], 5)], [("for", N[1], 8, [("for", N[2], 11, [("use", f, N[3])]), ("use", f, N[3])]), ("use", f, N[3])])], 4)
    # functions' own names, linkage
    for f in ("CSZ", "CALL", "ADR"):
        for k in (4, 1):
            add([("FD", N[0], k, [("use", f, N[1])]), ("fn", [], [("use", f, N[1])])], 2)
            add([("FI", N[0], 4), ("FD", N[1], k, [("use", f, N[2])]), ("fn", [], [("use", f, N[2])])], 3)
            add([("FD", N[0], k, []), ("FI", N[1], 4), ("fn", [], [("use", f, N[2])])], 3)
            add([("FD", N[0], k, []), ("fn", [], [("FI", N[1], 4), ("use", f, N[2])])], 3)
            add([("fn", [], [("FI", N[0], k), ("use", f, N[2])]), ("FD", N[1], k, [])], 3)
            add([("FD", N[0], k, []), ("fn", [], [("V", N[1], 5), ("blk", [("FI", N[2], k), ("use", f, N[0])])])], 3)
        add([("FD", N[0], 4, []), ("FD", N[1], 4, []), ("fn", [], [("use", f, N[1])])], 2)
        add([("FD", N[0], 4, [("V", N[1], 5), ("use", "VAL", N[2]), ("use", "VAL", N[1])])], 3)
        add([("fn", [], [("use", f, N[0]), ("use", f, N[1])]), ("FD", N[2], 4, [])], 3)
        add([("fn", [], [("blk", [("use", f, N[0])]), ("blk", [("use", f, N[1])])]), ("fn", [], [("use", f, N[2])])], 3)
    for k in ("V", "SV", "EV"):
        for k2 in ("V", "SV", "EV"):
            add([(k, N[0], 5), ("fn", [], [("use", "ADR", N[1])]), (k2, N[2], 5), ("fn", [], [("use", "ADR", N[1])])], 3)
            add([("fn", [], [("EV", N[0], 5), ("use", "ADR", N[1])]), (k, N[2], 5), (k2, N[1], 5)], 3)
            add([(k, N[0], 5), ("fn", [], [(k2, N[1], 5), ("blk", [("EV", N[2], 5), ("use", "ADR", N[3])]), ("use", "ADR", N[3])])], 4)
            add([("fn", [], [(k, N[0], 5), ("use", "ADR", N[0]), ("blk", [(k2, N[1], 8 if k2 != "EV" else 5), ("use", "ADR", N[1]), ("use", "ADR", N[0]), ("V", N[2], 11), ("use", "ADR", N[2])])])], 3)
    add([("fn", [], [("blk", [("SV", N[0], 5), ("use", "ADR", N[0])]), ("blk", [("SV", N[1], 8), ("use", "ADR", N[1])])]), ("fn", [], [("SV", N[0], 11), ("use", "ADR", N[0])])], 2)
    add([("fn", [(N[0], 5)], [("V", N[1], 11), ("use", "ADR", N[1]), ("blk", [("V", N[2], 8), ("use", "ADR", N[2]), ("use", "ADR", N[0]), ("use", "ADR", N[1])]), ("blk", [("V", N[2], 5), ("use", "ADR", N[2]), ("use", "ADR", N[0]), ("use", "ADR", N[1])])])], 3)
    # where a scope begins
    for o in ("V", "TD", "EN", "SV"):
        add([(o, N[0], 5), ("fn", [], [("VI", N[1], 0), ("use", "SZ", N[2])])], 3)
        add([("fn", [], [(o, N[0], 5), ("blk", [("VI", N[1], 0), ("use", "SZ", N[2])]), ("use", "SZ", N[2])])], 3)
        add([(o, N[0], 5), ("fn", [], [("EX", N[1], 30), ("use", "VAL", N[2])]), ("fn", [], [("use", "SZ", N[2])])], 3)
        add([("fn", [], [(o, N[0], 5), ("blk", [("EX", N[1], 30), ("EX", N[2], 40), ("use", "VAL", N[2])])])], 3)
        add([(o, N[0], 5), ("EX", N[1], 30), ("fn", [], [("use", "VAL", N[2])])], 3)
    for o in ("ST", "UT", "SP", "ET"):
        add([(o, N[0], 5), ("fn", [], [("SS", N[1], 8, "q"), ("use", "SST", N[2])])], 3)
        add([("fn", [], [(o, N[0], 5), ("blk", [("SS", N[1], 8, "q"), ("use", "SST", N[2])]), ("use", "SST", N[2])])], 3)
        add([(o, N[0], 5), ("fn", [], [("SP", N[1], 0), ("SR", N[2], 0, "q"), ("ST", N[1], 11), ("use", "DSZ", "q")])], 3)
        add([(o, N[0], 5), ("fn", [], [("SR", N[1], 0, "q"), ("ST", N[2], 11), ("use", "DSZ", "q")])], 3)
        add([(o, N[0], 5), ("fn", [], [("SR", N[1], 0, "q"), ("blk", [("ST", N[2], 11), ("use", "DSZ", "q")]), ("use", "SST", N[2])])], 3)
        add([("fn", [], [("SR", N[1], 0, "q"), (o, N[0], 5), ("use", "DSZ", "q")]), ("fn", [], [("use", "SST", N[1])])], 2)
        add([("fn", [], [("blk", [(o, N[0], 5)]), ("blk", [("ST", N[1], 8), ("use", "SST", N[2])])])], 3)
    # statements that are declarations when a name is a type
    for o1, o2 in itertools.product(["TD", "EN"], ["TD", "EN", "V"]):
        add([(o1, N[0], 5), ("fn", [], [("mul", N[1], N[2]), ("use", "DSZ", N[2])])], 3)
        add([(o1, N[0], 5), (o2, N[1], 8), ("fn", [], [("mul", N[2], N[3]), ("use", "SZ", N[3])])], 4)
        add([(o1, N[0], 5), ("fn", [], [(o2, N[1], 8), ("mul", N[2], N[3]), ("use", "SZ", N[3])])], 4)
        add([("fn", [], [(o1, N[0], 5), ("blk", [(o2, N[1], 8), ("mul", N[2], N[3]), ("use", "SZ", N[3])]), ("use", "SZ", N[3])])], 4)
    # labels and members have name spaces of their own
    for o in ("V", "TD", "EN", "SV", "FI"):
        f = "CSZ" if o == "FI" else "SZ"
        add([("fn", [], [(o, N[0], 8), ("lab", N[1]), ("use", f, N[0]), ("goto", N[2])])], 3)
        add([(o, N[0], 8), ("fn", [], [("goto", N[1]), ("blk", [("lab", N[2])]), ("use", f, N[0])]), ("fn", [], [("lab", N[1]), ("use", f, N[0])])], 3)
        add([(o, N[0], 8), ("fn", [], [("MB", N[1], 11, "q"), ("use", "DOT", N[2], "q"), ("use", f, N[0])])], 3)
        add([("fn", [], [("MB2", N[0], 11, "q", N[1]), ("use", "DOT", N[2], "q")])], 3)
        add([("fn", [], [("MB", N[0], 8, "q"), (o, N[1], 14), ("MB", N[1], 11, "r"), ("use", "DOT", N[0], "q"), ("use", "DOT", N[1], "r"), ("use", f, N[1])])], 2)
    for o, tg in itertools.product(["V", "TD", "EN"], ["ST", "UT", "ET"]):
        add([(o, N[0], 8), (tg, N[1], 5), ("fn", [], [("use", "SZ", N[0]), ("use", TAGS[tg].split()[0], N[1]), (o, N[1], 11), ("use", "SZ", N[1]), ("use", TAGS[tg].split()[0], N[1])])], 2)
    return out


_S = {}


def scopes(model):
    if model not in _S:
        _S[model] = Scopes(model)
    return _S[model]


def names(R):
    pl = plan(R.thorough)
    jobs = [("seg32", i) for i in range(len(pl))] + [("seg16", i) for i in range(0, len(pl), 1 if R.thorough else 9)] + [("huge", i) for i in range(0, len(pl), 3 if R.thorough else 17)]
    for m in ("seg32", "seg16", "huge"):
        scopes(m)

    def work(j):
        m, i = jobs[j]
        S = scopes(m)
        S.F.covered = set()
        return S.run(*pl[i]) + (sorted(S.F.covered),)
    cov = set()
    for (m, i), (bad, paths, seen, c) in zip(jobs, par.pmap(work, range(len(jobs)), chunk=8)):
        R.count("program templates")
        R.count("paths", paths)
        R.count("programs covered", seen)
        cov |= set(c)
        tx = scopes(m).lex(pl[i][0])[2] if bad or i % 97 == 0 else None
        if i % 97 == 0:
            R.sample("%s: %s" % (m, tx))
        for msg, text, w in bad[:1]:
            R.violation("%s:%s:%s" % (m, tx, msg[:50]), loc(w), "`%s` (%s): %s" % (text[-200:], m, msg))
    R.count("basic blocks analysed", len(cov))
    R.need("program templates", 800)
    R.need("programs covered", 5000)
    R.rule("The parser is interpreted over programs whose identifiers are unknown letters, the paths being sets of equalities between them; in every program of every path each use must denote the object, "
           "type, constant, tag or member that C's scope, name space and linkage rules give it, distinct objects alive together must not share storage, and exactly C's (checked) redeclaration errors are reported.")


def loc(w):
    if not w:
        return "v0100/smlrc.c:6238 (FindSymbol)"
    fn, _, ln = w.split(" < ")[0].partition(":")
    return "v0100/smlrc.c:%s (%s)" % (ln, fn)
