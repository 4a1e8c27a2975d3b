"""F10/F11: tokens and preprocessing.  The lexer is analysed on source texts some of whose bytes are unknown; the path
partition over the sets of their values is compared, for every value in every set, with an independent reading of C."""
import itertools
import terms as T, fe, sai, emit, par
from terms import isc, mask, sgn
from sai import P, AnalysisError, Forks, END, Interp, isfault

ANYB = frozenset(range(1, 256))


# ---------------------------------------------------------------- the domain: a set of values for each unknown byte
HOLES = [T.sym("u%d" % i, 8) for i in range(6)]
HIDX = {h: i for i, h in enumerate(HOLES)}
_table = {}


def holes(c):
    s = T.syms(c)
    if all(x in HIDX for x in s):
        return sorted(s, key=lambda x: HIDX[x])
    return None


def table(c):
    """values of the single unknown byte of c that make c true"""
    r = _table.get(c)
    if r is None:
        h = holes(c)
        if not h or len(h) != 1:
            r = _table[c] = False
        else:
            r = frozenset(v for v in range(256) if T.subst(c, {h[0]: v}) == 1)
            r = _table[c] = (h[0], r)
    return r


_many = {}


class Sets:
    anyop = 1

    def __init__(self, m):
        self.m = m

    def red(self, c):
        """c with the bytes that have one value left replaced by it"""
        h = holes(c)
        if h and len(h) > 1:
            m = {x: next(iter(self.m[x])) for x in h if len(self.m[x]) == 1}
            if m:
                return T.subst(c, m)
        return c

    def decide(self, st, c):
        c = self.red(c)
        if isc(c):
            return c
        t = table(c)
        if t:
            s = self.m[t[0]]
            if s <= t[1]:
                return 1
            if not s & t[1]:
                return 0
            return None
        h = holes(c)
        if h is None or len(h) < 2:
            return None
        n = 1
        for x in h:
            n *= len(self.m[x])
        if n > 1200:
            return None
        k = (c,) + tuple(self.m[x] for x in h)
        r = _many.get(k, 9)
        if r == 9:
            r = None
            for vs in itertools.product(*k[1:]):
                v = T.subst(c, dict(zip(h, vs)))
                if r is None:
                    r = v
                elif r != v:
                    r = None
                    break
            _many[k] = r
        return r

    def refine(self, st, c, val):
        c = self.red(c)
        if isc(c):
            return c == val
        t = table(c)
        if t:
            s = self.m[t[0]]
            s = s & t[1] if val else s - t[1]
            if not s:
                return False
            if s is not self.m[t[0]]:
                m = dict(self.m)
                m[t[0]] = s
                st.user = dict(st.user, rel=Sets(m))
        return True

    def conc(self, t):
        """t with the bytes that have one value left replaced by it"""
        m = {x: next(iter(self.m[x])) for x in holes(t) or () if len(self.m[x]) == 1}
        return T.subst(t, m) if m else t

    def splits(self, t):
        return bool(holes(t))

    def splitstate(self, st, t):
        """the values of the bytes of t, one state each; the current frame's registers are reduced"""
        out = []
        h = next((x for x in holes(t) if len(self.m[x]) > 1), None)
        for s, _ in split(st, h, [frozenset([v]) for v in sorted(self.m[h])]) if h is not None else [(st, None)]:
            m = {x: next(iter(v)) for x, v in s.user["rel"].m.items() if len(v) == 1}
            rg = s.frames[-1].regs
            for i, v in rg.items():
                if isinstance(v, T.Term):
                    rg[i] = T.subst(v, m)
                elif isinstance(v, P) and not isc(v.off):
                    rg[i] = P(v.obj, T.subst(v.off, m))
            out.append(s)
        return out

    def only(self, st, h, s):
        m = dict(self.m)
        m[h] = s
        st.user = dict(st.user, rel=Sets(m))


def split(st, h, parts):
    """[(state, part)] for the sets of values of h"""
    out = []
    cur = st.user["rel"].m[h]
    parts = [cur & p for p in parts]
    parts = [p for p in parts if p]
    for i, p in enumerate(parts):
        s = st
        if i < len(parts) - 1:
            s = st.fork()
        out.append((s, p))
    for s, p in out:
        s.user["rel"].only(s, h, p)
    return out


# ---------------------------------------------------------------- library calls on unknown bytes
def byteof(v):
    """the unknown byte a character argument stands for"""
    if isc(v):
        return None
    s = T.syms(v)
    if len(s) == 1:
        return next(iter(s))
    raise AnalysisError("character argument %s" % T.show(v))


_values = {}


def values(t, c):
    """low byte of t for each value of c"""
    r = _values.get(t)
    if r is None:
        r = _values[t] = [T.subst(t, {c: v}) & 255 for v in range(256)]
    return r


def multi(hook):
    """hook for arguments that depend on at most one byte each; others are split by value first"""
    def h(I, st, a, line):
        D = st.user["rel"]
        a = [D.red(v) if isinstance(v, T.Term) else v for v in a]
        for v in a:
            hs = holes(v) if isinstance(v, T.Term) else None
            if hs and len(hs) > 1:
                out = []
                for s, p in split(st, hs[0], [frozenset([x]) for x in sorted(D.m[hs[0]])]):
                    r = h(I, s, a, line)
                    if r.__class__ is Forks:
                        out += r.states
                    else:
                        out.append((s, r))
                return Forks(out)
        return hook(I, st, a, line)
    return h


def h_class(pred):
    def h(I, st, a, line):
        c = byteof(a[0])
        if c is None:
            return int(bool(pred(a[0] & 255)))
        val = values(a[0], c)
        yes = frozenset(v for v in range(256) if pred(val[v]))
        r = split(st, c, [yes, frozenset(range(256)) - yes])
        if len(r) == 1:
            return int(r[0][1] <= yes)
        return Forks([(s, int(p <= yes)) for s, p in r])
    return h


def h_strchr(I, st, a, line):
    c = byteof(a[1])
    if c is None:
        return sai.h_strchr(I, st, a, line)
    S = st.cstr(a[0])
    cur = st.user["rel"].m[c]
    val = values(a[1], c)
    no = frozenset(v for v in cur if val[v] and chr(val[v]) not in S)
    if len(S) >= 16:
        parts = [frozenset(v for v in cur if val[v] == ord(x)) for x in sorted(set(S))]
    else:
        parts = [cur - no]
    r = split(st, c, [no] + parts)
    res = []
    for s, p in r:
        if p <= no:
            res.append((s, 0))
        elif len(p) == 1:
            x = val[next(iter(p))]
            res.append((s, P(a[0].obj, a[0].off + (S.find(chr(x)) if x else len(S)))))
        else:
            res.append((s, P("somewhere in a string", 0)))
    if len(res) == 1:
        return res[0][1]
    return Forks(res)


def h_strcmp(I, st, a, line):
    """0 or 1; forks where an unknown byte decides"""
    work = [(st, 0)]
    out = []
    while work:
        s, i = work.pop()
        while True:
            x = s.load(P(a[0].obj, a[0].off + i), 1)
            y = s.load(P(a[1].obj, a[1].off + i), 1)
            if x is y or x == y:
                if x == 0:
                    out.append((s, 0))
                    break
                if not isc(x) and 0 in s.user["rel"].m[byteof(x)]:
                    raise AnalysisError("unknown terminator")
                i += 1
                continue
            c = T.cmp_("eq", 8, x, y)
            d = s.decide(c)
            if d is None:
                s2 = s.fork()
                if s2.assume(c, 1):
                    work.append((s2, i))
                if not s.assume(c, 0):
                    break
                d = 0
            if d:
                i += 1
                if x == 0 or y == 0:
                    out.append((s, 0))
                    break
                continue
            out.append((s, 1))
            break
    if len(out) == 1 and out[0][0] is st:
        return out[0][1]
    return Forks(out)


def h_strlen(I, st, a, line):
    i = 0
    while True:
        x = st.load(P(a[0].obj, a[0].off + i), 1)
        if x == 0:
            return i
        i += 1
        if i > 600:
            raise AnalysisError("unterminated string")


def h_strcpy(I, st, a, line):
    n = h_strlen(I, st, [a[1]], line)
    bs = [st.load(P(a[1].obj, a[1].off + i), 1) for i in range(n + 1)]
    for i, b in enumerate(bs):
        st.store(P(a[0].obj, a[0].off + i), 1, b)
    return a[0]


def libhooks():
    """the library calls that look at characters"""
    hk = dict(strchr=h_strchr, isdigit=h_class(lambda c: 48 <= c <= 57), isalpha=h_class(lambda c: 65 <= c <= 90 or 97 <= c <= 122),
              isalnum=h_class(lambda c: 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122),
              isspace=h_class(lambda c: c == 32 or 9 <= c <= 13), isxdigit=h_class(lambda c: chr(c) in "0123456789abcdefABCDEF"))
    hk = {n: multi(h) for n, h in hk.items()}
    hk.update(strcmp=h_strcmp, strlen=h_strlen, strcpy=h_strcpy)
    return hk


# ---------------------------------------------------------------- running the lexer
class Lexer:
    def __init__(self, F, opts):
        self.F, self.t = F, F.t
        self.opts = list(opts)
        self.st0 = F.base(self.opts, "@here", key=("lex",) + tuple(opts))
        self.W = 2 if "-seg16" in opts else 4
        self.covered = set()

    def hooks(self):
        hk = self.F.hooks(emit.Holes())
        for n in ("GetToken", "ShiftChar", "ShiftCharN", "memcmp", "d2f"):
            hk.pop(n, None)
        hk.update(libhooks())

        def fopen(I, st, a, line):
            n = h_strlen(I, st, a, line)
            out = []
            work = [(st, 0, "")]
            while work:
                s, i, name = work.pop()
                while i < n:
                    b = s.load(P(a[0].obj, a[0].off + i), 1)
                    if not isc(b):
                        b = s.user["rel"].red(b)
                    if not isc(b):
                        if b not in HIDX:
                            raise AnalysisError("file name byte %r" % (b,))
                        vs = sorted(s.user["rel"].m[b])
                        if len(vs) > 1:
                            work += [(x, i, name) for x, _ in split(s, b, [frozenset([v]) for v in vs])]
                            break
                        b = vs[0]
                    name += chr(b)
                    i += 1
                else:
                    s.user = dict(s.user, opened=s.user["opened"] + (name,))
                    if name not in s.user["fs"]:
                        out.append((s, 0))
                    else:
                        k = len(s.user["tapes"])
                        s.user = dict(s.user, tapes=s.user["tapes"] + ((name, 0),))
                        out.append((s, P("tape%d" % k, 0)))
            if len(out) == 1 and out[0][0] is st:
                return out[0][1]
            return Forks(out)

        def fgetc(I, st, a, line):
            if not (isinstance(a[0], P) and a[0].obj.startswith("tape")):
                raise AnalysisError("fgetc on %r" % (a[0],))
            k = int(a[0].obj[4:])
            name, pos = st.user["tapes"][k]
            txt = st.user["fs"][name]
            if pos >= len(txt):
                return mask(32)
            tp = list(st.user["tapes"])
            tp[k] = (name, pos + 1)
            st.user = dict(st.user, tapes=tuple(tp))
            b = txt[pos]
            return b if isc(b) else T.zext(8, b, 32)

        def dump(I, st, a, line):
            if a[0] != mask(32):
                st.user = dict(st.user, chars=st.user["chars"] + (a[0] if isc(a[0]) else T.trunc(32, a[0], 8),))
            return 0

        def d2f(I, st, a, line):
            n = a[1]
            ds = tuple(st.load(P(a[0].obj, a[0].off + i), 1) for i in range(n))
            st.user = dict(st.user, fl=(ds, a[2]))
            return 0x12345

        def printf2(I, st, a, line):
            return 0
        hk.update(fopen=fopen, fgetc=fgetc, GenDumpChar=dump, d2f=d2f)
        return hk

    def run(self, fs, sets, main="in.c"):
        """every path of the token stream of the text: [(state, tokens, end)]"""
        st = self.st0.fork()
        for o in st.mem.values():
            o.owner = None
        st.user = dict(st.user, fs=fs, tapes=((main, 0),), opened=(), chars=(), fl=None, rel=Sets(sets))
        st.gset("CharQueueLen", 0)
        st.gset("FileCnt", 1)
        st.gset("LineNo", 1)
        st.gset("LinePos", 1)
        st.store(P("Files", 0), 8, P("tape0", 0))
        st.putstr(P("FileNames", 0), main)
        out = []
        limit = 40 + 2 * sum(len(t) for t in fs.values())
        work = [(s, ()) for s in self.call(st, "ShiftChar", [])]
        while work:
            st, toks = work.pop()
            if len(toks) > limit:
                out.append((st, toks, "diag:a token stream that does not end"))
                continue
            st.user = dict(st.user, fl=None)
            for s in self.call(st, "GetToken", []):
                if s.status:
                    out.append((s, toks, s.status))
                    continue
                tk = s.ret
                ln = s.gget("LineNo")
                if isc(tk) and tk == self.t.tokEof & mask(32):
                    out.append((s, toks, "eof"))
                elif isc(tk) and tk in (self.t.tokLitStr, self.t.tokLitStrWide):
                    s.user = dict(s.user, chars=())
                    w = int(tk == self.t.tokLitStrWide)
                    for s2 in self.call(s, "GetString", [34, w, ord("d")]):
                        if s2.status:
                            out.append((s2, toks, s2.status))
                            continue
                        work.append((s2, toks + (("wstr" if w else "str", s2.user["chars"], s2.gget("TokenStringSize"), ln),)))
                else:
                    work.append((s, toks + (self.token(s, tk) + (ln,),)))
        return out

    def token(self, s, tk):
        t = self.t
        if isc(tk) and tk == t.tokIdent or not isc(tk) and 0:
            n = h_strlen(None, s, [P("TokenIdentName", 0)], 0)
            return ("id", tuple(s.load(P("TokenIdentName", i), 1) for i in range(n)))
        if isc(tk) and tk in (t.tokNumInt, t.tokNumUint, t.tokNumCharWide):
            return ({t.tokNumInt: "int", t.tokNumUint: "uint", t.tokNumCharWide: "wchar"}[tk], s.gget("TokenValueInt"))
        if isc(tk) and tk == t.tokNumFloat:
            return ("float",) + s.user["fl"]
        return ("op", tk)

    def call(self, st, fn, args):
        I = Interp(self.F.M, self.hooks(), maxsteps=4000000)
        st.status = None
        bad = []

        def rec(s, e):
            if isfault(e) and "somewhere" not in str(e):
                s.status = "fault:" + str(e)
                bad.append(s)
                return True
            return False
        I.recover = rec
        r = I.run(st, fn, args)
        for s in r:
            if s.status == "ret":
                s.status = None
        self.covered |= I.covered
        return r + [b for b in bad if not any(b is x for x in r)]


# ---------------------------------------------------------------- C's reading of the text
class Stop(Exception):
    """kind: error, any, eof"""


PUNCT = ["<<=", ">>=", "...", "<<", ">>", "&&", "||", "==", "!=", "<=", ">=", "++", "--", "->", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=",
         "+", "-", "*", "/", "%", "&", "|", "^", "!", "<", ">", "=", ".", ",", ";", ":", "(", ")", "[", "]", "{", "}", "~", "?"]
WHITE = (9, 11, 12, 32)
NL = (10, 13)
SKIPWORDS = {"const", "volatile", "auto", "register", "restrict"}
OTHERKW = {"_Bool": "tok_Bool", "_Complex": "tok_Complex", "_Imaginary": "tok_Imagin"}
SIMPLE = {ord(a): b for a, b in zip("abfnrtv", (7, 8, 12, 10, 13, 9, 11))}


def isal(c):
    return 65 <= c <= 90 or 97 <= c <= 122 or c == 95


def isdg(c):
    return 48 <= c <= 57


class Ref:
    """the documented language: C's tokens, object-like macros, #ifdef/#ifndef/#else/#endif, #include, #line and #pragma pack"""

    def __init__(self, L, fs, main="in.c"):
        self.L, self.t, self.W = L, L.t, L.W
        self.fs = fs
        self.schar, self.wsize, self.wsigned = L.model["schar"], L.model["wsize"], L.model["wsigned"]
        self.macros = dict(L.model["macros"])
        self.pack, self.packs = L.W, []
        self.toks = []
        self.line = 1
        self.files = []           # (text, pos, line, name)
        self.name = main
        self.text, self.pos = list(fs[main]), 0
        self.conds = []           # (outer active, this group's active, else seen)
        self.active = True
        self.path = L.model["path"], L.model["syspath"]
        self.opened = []
        self.expanding = []

    # -- characters
    def c(self, k=0):
        i = self.pos + k
        return self.text[i] if i < len(self.text) else 0

    def eat(self, n=1):
        self.pos += n

    def newline(self):
        if self.c() == 13 and self.c(1) == 10:
            self.pos += 1
        self.pos += 1
        self.line = self.line + 1 & mask(32)

    def any(self):
        raise Stop("any")

    def err(self):
        raise Stop("error")

    def space(self, nl):
        """white space and comments; True if any"""
        p0 = self.pos
        while 1:
            c = self.c()
            if c in WHITE:
                self.eat()
            elif c in NL:
                if not nl:
                    break
                self.newline()
            elif c == 47 and self.c(1) == 47:
                self.eat(2)
                while self.c() and self.c() not in NL:
                    if self.c() == 92 and self.c(1) in NL:
                        self.any()          # a spliced line
                    self.eat()
            elif c == 47 and self.c(1) == 42:
                self.eat(2)
                while not (self.c() == 42 and self.c(1) == 47):
                    if not self.c():
                        self.err()
                    if self.c() in NL:
                        if not nl:
                            self.any()      # a comment across lines inside a directive
                        self.newline()
                    else:
                        self.eat()
                self.eat(2)
            else:
                break
        return self.pos > p0

    # -- pieces
    def ident(self):
        if not isal(self.c()):
            self.err()
        p = self.pos
        while isal(self.c()) or isdg(self.c()):
            self.eat()
        w = "".join(map(chr, self.text[p:self.pos]))
        if len(w) > 63:
            self.err()
        return w

    def number(self):
        """pp-number, then its meaning"""
        p = self.pos
        while isal(self.c()) or isdg(self.c()) or self.c() == 46 or self.c() in (43, 45) and chr(self.text[self.pos - 1]) in "eE" and \
                not (chr(self.text[p]) == "0" and self.pos > p + 1 and chr(self.text[p + 1]) in "xX"):
            self.eat()
        w = "".join(map(chr, self.text[p:self.pos]))
        import re
        m = re.fullmatch(r"(\d+\.\d*|\.\d+|\d+(?=[eE]))(?:[eE]([+-]?\d+))?([fFlL]?)", w)
        if m:
            a, b = (m.group(1).split(".") + [""])[:2]
            n, e = int(a + b or 0), int(m.group(2) or 0) - len(b)
            if abs(e) > 1 << 30:
                raise Stop("any")           # no such float
            return "float", (n, e)
        m = re.fullmatch(r"(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9]\d*)([uU][lL]?|[lL][uU]?|)", w)
        if not m:
            # not a number of C's; such a token may be refused or cut into pieces
            if re.fullmatch(r"0[xX]|\d+[eE][+-]?|\d*\.\d*[eE][+-]?|0\d*[89]\d*", w):
                self.err()
            raise Stop("any")
        v = int(m.group(1), 0 if m.group(1)[:2] in ("0x", "0X") else 8 if m.group(1)[0] == "0" else 10)
        s = m.group(2).lower()
        lim = 1 << (8 * self.W)
        if v >= lim or self.W == 2 and "l" in s:
            self.err()
        if "u" not in s and v < lim // 2:
            return "int", v
        if "u" not in s and m.group(1)[0] != "0":
            self.err()                      # no type holds it
        return "uint", v

    def char(self, wide):
        """one element of a character constant or string"""
        c = self.c()
        if c in NL or c == 0:
            self.err()
        if c != 92:
            if wide and c > 127:
                if not self.active:
                    self.any()
                self.err()
            self.eat()
            return c
        self.eat()
        c = self.c()
        if c == 0 or c in NL:
            self.err()
        if c == ord("x"):
            self.eat()
            p = self.pos
            while self.c() and chr(self.c()) in "0123456789abcdefABCDEF":
                self.eat()
            if p == self.pos:
                self.err()
            v = int("".join(map(chr, self.text[p:self.pos])), 16)
            if v >> 8 * (self.wsize if wide else 1):
                self.err()
            return v
        if 48 <= c <= 55:
            v = 0
            n = 0
            while 48 <= self.c() <= 55 and n < 3:
                v = v * 8 + self.c() - 48
                n += 1
                self.eat()
            if v > 255:
                self.err() if not wide else self.any()
            return v
        self.eat()
        if c in SIMPLE:
            return SIMPLE[c]
        if c in b"\\'\"?":
            return c
        if wide and c > 127:
            self.err()
        self.stray = True
        return c                            # an unknown escape; stands for itself

    def chars(self, term, wide):
        out = []
        while self.c() != term:
            out.append(self.char(wide))
        self.eat()
        return out

    def charconst(self, wide):
        cs = self.chars(39, wide)
        if not cs or len(cs) > (1 if wide else self.W):
            self.err()
        if wide:
            v = cs[0]
            if self.wsigned and self.wsize == 2 and v >= 0x8000:
                v -= 0x10000
            return "wchar", v & mask(32)
        if len(cs) == 1:
            v = cs[0]
            if self.schar and v > 127:
                v -= 256
        else:
            v = 0
            for c in cs:
                v = v << 8 | c
            if self.W == 2 and v >= 0x8000:
                v -= 0x10000
        return "int", v & mask(32)

    # -- directives
    def eol(self):
        self.space(0)
        if self.c() and self.c() not in NL:
            self.err()

    def directive(self):
        self.eat()
        self.space(0)
        c = self.c()
        if c == 0 or c in NL:
            return
        if isdg(c):
            return self.lineno()
        w = self.ident()
        if w == "line":
            self.space(0)
            if not isdg(self.c()):
                self.err()
            return self.lineno()
        if w in ("ifdef", "ifndef"):
            self.space(0)
            n = self.ident()
            self.eol()
            if len(self.conds) >= 8:
                self.err()
            self.conds.append((self.active, (n in self.macros) == (w == "ifdef"), False, len(self.files)))
            self.active = self.active and self.conds[-1][1]
        elif w == "else":
            self.eol()
            if not self.conds or self.conds[-1][2]:
                self.err()
            o, a, _, d = self.conds.pop()
            self.conds.append((o, a, True, d))
            self.active = o and not a
        elif w == "endif":
            self.eol()
            if not self.conds:
                self.err()
            self.active = self.conds.pop()[0]
        elif w == "pragma":
            if self.active:
                self.pragma()
            else:
                self.rest()
        elif w == "define":
            self.space(0)
            n = self.ident()
            if not self.active:
                return self.rest()
            if n in self.macros:
                self.err()
            if self.c() == 40:
                self.err()
            if self.c() and not (self.c() in WHITE or self.c() in NL or self.c() == 47 and self.c(1) in (42, 47)):
                if isal(self.c()) or isdg(self.c()) or self.c() > 127 or self.c() in (36, 64, 92, 96):
                    self.any()
            self.macros[n] = (self.body(), self.text)
        elif w == "undef":
            self.space(0)
            n = self.ident()
            self.eol()
            if self.active:
                self.macros.pop(n, None)
        elif w == "include":
            self.space(0)
            q = self.c()
            if q not in (34, 60):
                self.err()
            self.eat()
            nm = []
            while self.c() != (34 if q == 34 else 62):
                if self.c() == 92:
                    self.any()
                if not self.c() or self.c() in NL:
                    self.err()
                nm.append(self.c())
                self.eat()
            self.eat()
            self.eol()
            if self.active:
                self.include("".join(map(chr, nm)), q)
        else:
            if self.active:
                self.err()
            if w == "if":
                self.rest()
                if len(self.conds) >= 8:
                    self.err()
                self.conds.append((False, False, False, len(self.files)))
            elif w == "elif":
                if not self.conds or self.conds[-1][2]:
                    self.any()
                self.any()
            else:
                self.rest()

    def rest(self):
        while self.c() and self.c() not in NL:
            self.eat()

    def body(self):
        """replacement list as text, comments as spaces"""
        out = []
        while self.c() and self.c() not in NL:
            c = self.c()
            if c == 92 and self.c(1) in NL:
                self.any()
            if c in (34, 39):
                p = self.pos
                self.eat()
                while self.c() != c:
                    if not self.c() or self.c() in NL or self.c() == 92 and (not self.c(1) or self.c(1) in NL):
                        self.any()
                    self.eat(2 if self.c() == 92 else 1)
                self.eat()
                out += self.text[p:self.pos]
                continue
            p = self.pos
            if self.space(0):
                out.append(32)
                continue
            out.append(c)
            self.eat()
        return out

    def lineno(self):
        if not self.active:
            self.any()
        k, v = self.number()
        if k != "int":
            self.err()
        self.space(0)
        if self.c() in (34, 60):
            term = 34 if self.c() == 34 else 62
            self.eat()
            nm = self.chars(term, 0)
            if len(nm) > 254:
                self.err()
            if 0 in nm:
                self.any()
            if self.active:
                self.name = "".join(map(chr, nm))
        self.rest()
        if not self.active:
            self.any()
        self.line = v - 1 & mask(32) if self.c() in NL else self.any()

    def pragma(self):
        self.space(0)
        if self.ident() != "pack":
            self.err()
        self.space(0)
        if self.c() != 40:
            self.any()                      # not a form anyone documents
        self.eat()
        self.space(0)

        def num():
            k, v = self.number()
            if k != "int" or v not in ((1, 2, 4) if self.W == 4 else (1, 2)):
                self.err()
            return v
        if self.c() == 41:
            self.pack = self.W
        elif isdg(self.c()):
            self.pack = num()
        else:
            w = self.ident()
            if w == "push":
                self.space(0)
                if len(self.packs) >= 16:
                    self.err()
                v = self.pack
                if self.c() == 44:
                    self.eat()
                    self.space(0)
                    if not isdg(self.c()):
                        self.err()
                    v = num()
                self.packs.append(self.pack)
                self.pack = v
            elif w == "pop":
                if not self.packs:
                    self.err()
                self.pack = self.packs.pop()
            else:
                self.err()
        self.space(0)
        if self.c() != 41:
            self.err()
        self.eat()
        self.eol()

    def include(self, nm, q):
        if len(self.files) + 1 >= 8 or len(nm) > 254:
            self.err()
        paths = ([""] if q == 34 else []) + ([p + "/" for p in self.path[0]] if q == 34 else []) + [p + "/" for p in self.path[1]]
        for p in paths:
            if len(p) + len(nm) >= 254 and p:
                continue
            self.opened.append(p + nm)
            if p + nm in self.fs:
                self.files.append((self.text, self.pos, self.line, self.name))
                self.text, self.pos, self.line, self.name = list(self.fs[p + nm]), 0, 1, p + nm
                return
        self.err()

    # -- the token stream
    def run(self):
        try:
            while 1:
                self.token()
        except Stop as e:
            return self.toks, e.args[0]

    def token(self):
        start = self.pos == 0 or not self.toks
        self.space(1)
        c = self.c()
        if c == 0:
            if not self.files:
                if self.conds:
                    self.err()
                raise Stop("eof")
            if self.conds and self.conds[-1][3] >= len(self.files):
                self.any()                  # a conditional that spans files
            self.text, self.pos, self.line, self.name = self.files.pop()
            return
        if c == 35:
            # only the first token of a line starts a directive
            i = self.pos - 1
            while i >= 0 and self.text[i] not in NL:
                if self.text[i] not in WHITE:
                    break
                i -= 1
            if i >= 0 and self.text[i] not in NL:
                self.any()
            self.directive()
            return
        if isal(c) and not (c == 76 and self.c(1) in (34, 39)):
            w = self.ident()
            if not self.active:
                return
            return self.word(w)
        self.emit(self.lex())

    def emit(self, x):
        if self.active:
            self.toks.append(x + (self.line,))

    def lex(self):
        """a token that is not a word"""
        c = self.c()
        if isdg(c) or c == 46 and isdg(self.c(1)):
            if not self.active:
                try:
                    self.number()
                except Stop:
                    self.any()
                return ("skipped",)
            return self.number()
        wide = 0
        if c == 76:
            wide = 1
            self.eat()
            c = self.c()
        if c in (34, 39):
            self.eat()
            if not self.active:
                try:
                    if not self.chars(c, wide) and c == 39:
                        self.any()
                except Stop:
                    self.any()
                return ("skipped",)
            if c == 39:
                return self.charconst(wide)
            cs = self.chars(34, wide)
            n = self.wsize if wide else 1
            return ("wstr" if wide else "str", tuple(b for v in cs for b in v.to_bytes(n, "little")), len(cs) * n)
        s = "".join(map(chr, self.text[self.pos:self.pos + 3]))
        for k in (3, 2, 1):
            if s[:k] in PUNCT and len(s) >= k:
                self.eat(k)
                return ("op", self.op(s[:k]))
        if not self.active:
            self.any()
        self.err()

    def op(self, s):
        if len(s) == 1:
            return ord(s)
        return self.t.by[fe.OPTOK[s]]

    def word(self, w):
        if w == "__LINE__":
            return self.emit(("int", self.line) if self.line < 1 << (8 * self.W - 1) else self.any())
        if w == "__FILE__":
            return self.emit(("str", tuple(self.name.encode("latin-1")), len(self.name)))
        if w in self.macros:
            if w in self.expanding:
                self.any()
            save = self.text, self.pos
            self.expanding.append(w)
            self.text, self.pos = list(self.macros[w][0]), 0
            while 1:
                self.space(0)
                if not self.c():
                    break
                if self.c() == 35:
                    self.any()
                if isal(self.c()) and not (self.c() == 76 and self.c(1) in (34, 39)):
                    self.word(self.ident())
                else:
                    self.emit(self.lex())
            self.expanding.pop()
            self.text, self.pos = save
            return
        if w in SKIPWORDS:
            return
        k = fe.KW.get(w) or OTHERKW.get(w)
        if k and k in self.t.by:
            return self.emit(("op", self.t.by[k]))
        self.emit(("id", tuple(w.encode("latin-1"))))


# ---------------------------------------------------------------- comparing
def val(v, m):
    return v if isc(v) else T.subst(v, m)


def floatval(ds, e):
    n = 0
    for d in ds:
        n = n * 10 + d
    return n, sgn(e, 32)


def samefloat(a, b):
    """equal decimals; digits beyond the 112 most significant ones may be dropped"""
    (n, e), (k, f) = a, b
    if n == 0 or k == 0:
        return n == k
    d = min(e, f)
    if max(e, f) - d > 400:
        return False
    x, y = n * 10 ** (e - d), k * 10 ** (f - d)
    return x == y or len(str(k).rstrip("0")) > 112 and 0 <= y - x and (y - x) * 10 ** 111 < y


def differs(L, toks, end, rt, rend, m, st):
    """what is wrong with the analysed stream under the values m"""
    n = len(rt)
    if rend == "any" and len(toks) < n:
        return None if len(toks) < n and end.startswith("diag") and same(toks, rt[:len(toks)], m) else first(toks, rt, m, end) if len(toks) < n and not end.startswith("diag") else None
    for i, r in enumerate(rt):
        if i >= len(toks):
            return "%s instead of token %s" % (endname(end), tokname(L, r))
        d = tokdiff(toks[i], r, m)
        if d:
            return "token %s instead of %s" % (tokname(L, d), tokname(L, r))
    if rend == "any":
        return None
    if len(toks) > n:
        return "token %s instead of %s" % (tokname(L, inst(toks[n], m)), "an error" if rend == "error" else "the end")
    e = "error" if end.startswith("diag") else end
    if e != rend:
        return "%s instead of %s" % (endname(end), "an error" if rend == "error" else "the end of the text")
    return None


def same(a, b, m):
    return all(not tokdiff(x, y, m) for x, y in zip(a, b))


def first(toks, rt, m, end):
    return None if same(toks, rt, m) else "a wrong token"


def inst(t, m):
    return tuple(tuple(val(x, m) for x in v) if isinstance(v, tuple) else val(v, m) if not isinstance(v, str) else v for v in t)


def tokdiff(t, r, m):
    t = inst(t, m)
    if t[0] == "float" and r[0] == "float":
        if t[-1] == r[-1] and samefloat(floatval(t[1], t[2]), r[1]):
            return None
        return t
    return None if t == r else t


def endname(e):
    return {"eof": "the end of the text"}.get(e, "an error" if e.startswith("diag") else e)


def tokname(L, t):
    if t[0] == "op":
        v = t[1]
        s = chr(v) if isc(v) and v < 256 and chr(v) in "".join(PUNCT) and len(t) else None
        if s is None:
            for k, n in L.t.by.items():
                if n == v:
                    s = k
        return "`%s' (line %s)" % (s, t[-1])
    return "%s %s (line %s)" % (t[0], " ".join(str(x) for x in t[1:-1])[:60], t[-1])


def parse(tpl):
    """template text: \1..\6 are the unknown bytes"""
    return tuple(HOLES[ord(c) - 0xe001] if 0xe001 <= ord(c) <= 0xe006 else ord(c) for c in tpl)


H = [chr(0xe001 + i) for i in range(6)]


def check(L, fs, sets):
    """fs: name -> template; sets: alphabets of the unknown bytes.  -> (violations, paths, values)"""
    fst = {k: parse(v) for k, v in fs.items()}
    used = sorted({x for t in fst.values() for x in t if not isc(x)}, key=lambda x: HIDX[x])
    dom = {h: frozenset(sets[HIDX[h]]) for h in HOLES if h in used}
    paths = L.run(fst, dom)
    total = 1
    for h in used:
        total *= len(dom[h])
    seen = 0
    bad = []
    for st, toks, end in paths:
        m = st.user["rel"].m
        facts = [(c, v) for c, v in st.facts.items() if not isc(c) and holes(c)]
        for vs in itertools.product(*[sorted(m[h]) for h in used]):
            a = dict(zip(used, vs))
            if any(T.subst(c, a) != v for c, v in facts):
                continue
            seen += 1
            conc = {k: [val(b, a) for b in t] for k, t in fst.items()}
            R = Ref(L, conc)
            rt, rend = R.run()
            d = differs(L, toks, end, rt, rend, a, st)
            if not d and rend == "eof":
                d = extra(L, R, st, a)
            if d:
                bad.append((d, "".join(chr(b) for b in conc["in.c"]), end, st.user.get("errline")))
                if len(bad) > 3:
                    return bad, len(paths), seen
    if seen != total:
        raise AnalysisError("the paths cover %d of %d texts" % (seen, total))
    return bad, len(paths), seen


def extra(L, R, st, a):
    if tuple(R.opened) != st.user["opened"]:
        return "the files tried are %s instead of %s" % (", ".join(st.user["opened"]) or "none", ", ".join(R.opened) or "none")
    p = val(st.gget("PragmaPackValue"), a)
    if p != R.pack:
        return "the packing in force is %s instead of %d" % (p, R.pack)
    return None


# ---------------------------------------------------------------- the texts
OPTS = {
    "seg32": (["-seg32"], dict(schar=1, wsize=2, wsigned=0)),
    "seg16": (["-seg16"], dict(schar=1, wsize=2, wsigned=0)),
    "uchar": (["-seg32", "-unsigned-char", "-long-wchar"], dict(schar=0, wsize=4, wsigned=0)),
    "swchar": (["-seg32", "-signed-wchar"], dict(schar=1, wsize=2, wsigned=1)),
    "huge": (["-huge", "-long-wchar", "-signed-wchar", "-signed-char"], dict(schar=1, wsize=4, wsigned=1)),
    "unreal": (["-unreal", "-unsigned-char", "-short-wchar", "-unsigned-wchar"], dict(schar=0, wsize=2, wsigned=0)),
    "search": (["-seg32", "-I", "u1", "-SI", "s1", "-I", "u2/x", "-SI", "s2"], dict(schar=1, wsize=2, wsigned=0)),
    "define": (["-seg32", "-D", "AA", "-D", "_b9=+ + x", "-D", "CC="], dict(schar=1, wsize=2, wsigned=0)),
}


def macros(o, m):
    """the documented predefined macros"""
    w16 = "-seg16" in o
    d = {"__SMALLER_C__": "0x0100", "__SMALLER_C_16__" if w16 else "__SMALLER_C_32__": ""}
    if "-huge" in o:
        d["__HUGE__"] = ""
    if "-unreal" in o:
        d["__UNREAL__"] = ""
    d["__SMALLER_C_%sCHAR__" % "US"[m["schar"]]] = ""
    d["__SMALLER_C_%sWCHAR__" % "US"[m["wsigned"]]] = ""
    d["__SMALLER_C_WCHAR%d__" % (8 * m["wsize"])] = ""
    for i, x in enumerate(o):
        if x == "-D":
            n, _, e = o[i + 1].partition("=")
            d[n] = e if "=" in o[i + 1] else "1"
    return {k: ([ord(c) for c in v], None) for k, v in d.items()}


_lex = {}


def lexer(model):
    L = _lex.get(model)
    if L is None:
        o, m = OPTS[model]
        if not _lex:
            _lex["fe"] = fe.FE()
        L = Lexer(_lex["fe"], o)
        L.model = dict(m, macros=macros(o, m), path=[o[i + 1] for i, x in enumerate(o) if x == "-I"], syspath=[o[i + 1] for i, x in enumerate(o) if x == "-SI"])
        _lex[model] = L
    return L


def chars(s):
    return frozenset(ord(c) for c in s)


A, B, C, D = H[:4]
PCH = chars("+-*/%&|^!<>=.,;:()[]{}~?")
REP = chars(" \t\v\f\n\r" + "+-*/%&|^!<>=.,;:()[]{}~?" + "#'\"\\@$`" + "019aefglnrtuxABEFGLUXZ_" + "\x01\x7f\x80\xff")
SHORT = chars(" \n/*#\"'\\a1(=")
DIG = chars("0123456789")
KWS = sorted(set(fe.KW) | SKIPWORDS | set(OTHERKW))


def f10plan(deep):
    P = []

    def add(model, tpl, *sets):
        P.append((model, {"in.c": tpl}, sets))
    for t in (A + B + "\nz;", "a" + A + B + "b\n", "/" + A + B + "/;", "/*" + A + B + "*/x;", "//" + A + B + "\nx;", "." + A + B + ";", "1." + A + B + ";", "1e" + A + B + ";",
              "0" + A + B + ";", "7" + A + B + ";", "0x" + A + B + ";", "x" + A + B, A + "L" + B + "'x'"):
        add("seg32", t, ANYB, ANYB)
    for model in ("seg32", "seg16", "uchar", "swchar", "huge", "unreal"):
        for q in "'\"":
            for p in ("", "L"):
                full = ANYB if model in ("seg32", "uchar") or deep else REP | chars("bfv78")
                add(model, p + q + A + B + q + ";z", full, full)
                add(model, p + q + "\\" + A + B + q + ";z", full, full)
                for e in ("\\x", "\\0", "\\x0", "\\x7", "\\x8", "\\37", "\\17", "\\40", "\\", "a\\", "\\x00000"):
                    s = chars("0123456789abcdefABCDEFgG'\"\\\nn")
                    add(model, p + q + e + A + B + q + ";z", s, s)
                for e in ("\\x7ff", "\\x800", "\\xfff", "\\xfffff", "\\x7fffff", "\\xffffff"):
                    s = chars("0189afF'\"\\n")
                    add(model, p + q + e + A + B + q + ";z", s, s)
                add(model, p + q + "ab" + A + B + "cd" + q + ";z", full if q == '"' else REP, REP)
                add(model, p + q + A + q + B + q + q + "\nz", REP, REP)
                add(model, p + q + "a" + A + B, SHORT, SHORT)
                add(model, p + q + "\x80" + A + q + p + q + "\xff" + B + q, REP, REP)
    add("seg32", A + B + C + ";", PCH, PCH, PCH)
    for s in ("<<", ">>", "..", "->", "--", "++", "&&", "||", "=", "<", ">", "/", "*"):
        add("seg32", "a" + A + s + B + "b", REP, REP)
    SUF = chars("uUlLfF;. e8")
    for model in ("seg32", "seg16"):
        for d in ("42949672", "21474836", "65", "32", "655", "327", "9999999999999", "42949672950000", "18446744073709551", "00000429496729"):
            for e in ("", A) if deep else ("",):
                add(model, d + A + B + C + ";", DIG, DIG, SUF)
        for d in ("0x7FFFFFF", "0xFFFFFFF", "0xffffffff", "0x7FF", "0xFFF", "0X8000", "0x000000007fffffff", "0xffffffffffffffff", "0x1000"):
            s = chars("0189afAF")
            add(model, d + A + B + C + ";", s | SUF, s | SUF, SUF)
        for d in ("01777777777", "03777777777", "037777777777", "07777", "017777", "0200000000000000000000", "0000000000000000177777777"):
            add(model, d + A + B + C + ";", DIG | SUF, DIG | SUF, SUF)
        for d in ("1", "0", "017", "09", "0x1", "0x", "123"):
            add(model, d + A + B + C + ";", SUF | chars("_x+"), SUF | chars("_x+"), SUF)
    FS = chars("eE.fFlL+-0159;u")
    for d in ("1.", "1.5", "0.", ".5", "1e", "1e+", "1e-", "00.0", "0e", "9.9e1", "010.", "08", "1000.", "0.001", "1.50e", "100e"):
        add("seg32", d + A + B + C + ";", FS, FS, FS)
    for n in (109, 110, 111, 112, 113):
        for d in ("1" * n, "0." + "0" * 5 + "7" * n, "9" * (n - 50) + "." + "0" * 50, "1" + "0" * n, "0." + "0" * n):
            add("seg32", d + A + B + ";", DIG | chars(".e"), DIG | chars(".eE"))
    for d in ("1e21474836", "1e-21474836", "0.01e-21474836", "100e21474836", "0.001e21474836", "1e99999999999"):
        add("seg32", d + A + B + ";", DIG, DIG)
    for k in KWS:
        add("seg32", k + A + B + ";", ANYB if deep else REP | chars("bcdhikmopqsvwyz"), SHORT)
        add("seg32", A + k + " " + k, REP | chars("bcdhikmopqsvwyz"))
        for i in range(len(k)):
            add("seg32", k[:i] + A + k[i + 1:] + ";", ANYB)
            if deep and i + 1 < len(k):
                add("seg32", k[:i] + A + B + k[i + 2:] + ";", ANYB, REP | chars("abcdefghijklmnopqrstuvwxyz_"))
    for n in (61, 62, 63):
        add("seg32", "q" * n + A + B + ";", REP, REP)
    for t in ("a" + A + "\n" + B + "b", "a\r" + A + B + "b", "a\n" + A + "\r" + B + "__LINE__", "a /*" + A + B + "x*/ __LINE__", "a//" + A + "\n" + B + "__LINE__\n__LINE__"):
        add("seg32", t, REP, REP)
    return P


def f11plan(deep):
    P = []

    def add(model, tpl, *sets, **fs):
        d = {"in.c": tpl}
        d.update({k.replace("__", "/").replace("_", "."): v for k, v in fs.items()})
        P.append((model, d, sets))
    R = ANYB if deep else REP
    # definitions and expansion
    for t in ("#define X" + A + "1" + B + "2\nX;y", "#define X 1" + A + B + "2\nX\n;X", "#define X" + A + B + "\nX y\nX", '#define X "a' + A + B + 'b" c\nX;', "#define X '" + A + B + "' c\nX;",
              '#define X L"' + A + B + '" L\nX;', "#define X " + A + "a" + B + "//b\nX;", "#define X a /" + A + " b" + B + "*/ c\nX;", "#define X (" + A + "  " + B + ") \t \nX;",
              "#define X + " + A + B + "\nX+X", "#define X \"\\" + A + "//" + B + "\nX;", "#define X '\\" + A + "/*" + B + "' */ y\nX", '#define X "a//b" ' + A + B + "\nX",
              "#define X '\"' " + A + "//" + B + "\nX", "#define X \"'\" " + A + "/*'*/" + B + "\nX", "#define X \"  " + A + "  \"  " + B + "  '  '\nX",
              "#" + A + "define" + B + "X 1\nX;", A + "#define X 1" + B + "X;", "#define " + A + B + " 1\n" + "aa;", "#define X x\n#undef" + A + "X" + B + "\nX", "#define X x\n#undef X" + A + B + "\nX",
              "#define X x\n#undef " + A + B + "\nX", "#undef X" + A + "\n" + B + "X", "#define X 1\n#define X" + A + "1" + B + "\nX"):
        add("seg32", t, R, R)
    for t in ("#define P " + A + B + "\nP" + C + ";", "#define P " + A + "\n" + B + "P" + C + ";", "#define P 1\nP" + A + B + ";P" + C, "#define P \nP" + A + "P" + B + "P;" + C):
        add("seg32", t, PCH | chars("19aeLx"), PCH | chars("19aeLx"), PCH | chars("19aL"))
    for t in ("#define A B\n#define B " + A + B + "\nA;B A", "#define A 1 B 2\n#define B " + A + "\nA B" + B + "A", "#define B x" + A + "\n#define A B B\n#undef B" + B + "\nA",
              "#define int char\nint" + A + "x" + B, "#define A B C D\n#define B C\n#define C D\n#define D 7" + A + "\nA" + B + "A", "#define A -1\n#define B +A\n-A" + A + "B" + B,
              "#define AB 1\n#define A 2\n#define ABC 3\nA" + A + B + " AB", "#define x" + A + " 1\n#define x" + B + " 2\nxa xb x1;"):
        add("seg32", t, REP, REP)
    # lines and files
    for t in ("\n" + A + "__LINE__" + B + "\n__LINE__ __FILE__", "#line " + A + B + "\n__LINE__ __FILE__\n__LINE__", "#line 1" + A + B + "\n__LINE__", "# 12" + A + B + "1\n__LINE__ __FILE__",
              "#line 12 " + A + "f" + B + "\n__LINE__ __FILE__", '#line 12 "f' + A + B + '\n__LINE__ __FILE__', '# 7 "a' + A + '" 1' + B + "\n__LINE__ __FILE__\n__LINE__", "#" + A + "line" + B + "3\n__LINE__",
              "#line 3 <a" + A + ">" + B + "\n__FILE__", "x\r\n\r" + A + "__LINE__" + B + "__LINE__", "#define L __LINE__\n" + A + "L\n" + B + "L", "#line 2147483647" + A + B + "__LINE__",
              "# 99" + A + ' "x.h"\n#line 5' + B + "\n__LINE__ __FILE__"):
        add("seg32", t, R, R)
    add("seg16", "#line 3276" + A + "\n__LINE__" + B, DIG, REP)
    # conditionals
    for t in ("#ifdef Z\n" + A + B + "x\n#endif\ny;", "#ifdef Z\n#" + A + B + "\n#endif\ny;", "#ifdef Z\n#define" + A + "A" + B + "\n#endif\nA;", "#ifndef Z\nx" + A + "\n#else\ny" + B + "\n#endif\nz",
              "#ifdef" + A + "__SMALLER_C__" + B + "\nx\n#else\ny\n#endif", "#ifdef " + A + B + "\nx\n#else\ny\n#endif\nz", "#ifdef Z" + A + "\n#else" + B + "\nx\n#endif\nz", "#ifdef Z\n#endif" + A + B + "\nz",
              "#ifdef Z\n#if" + A + "1\nx\n#else" + B + "\ny\n#endif\nz\n#endif\nw", "#ifdef Z\n#error don" + A + "t\n#foo \"" + B + "\n#endif\nw", "#ifdef Z\n#include " + A + "x.h" + B + "\n#endif\nw",
              "#ifdef Z\n#undef __SMALLER_C__" + A + "\n#endif\n__SMALLER_C__" + B, "#ifdef Z\n'" + A + "' \"" + B + "\" 0x1 99999999999 08.5\n#endif\ny", "#ifdef Z\n#pragma " + A + B + "\n#endif\ny",
              "#ifdef Z\n/*" + A + "#endif*/\nx\n#endif" + B + "\ny", "#ifdef Z\n//" + A + "\n#else\nx//" + B + "\n#endif\ny", "#ifdef Z\n" + A + "#endif\nx" + B + "#endif\ny",
              "#ifndef Z\n#if" + A + "\n#endif" + B, "#elif" + A + B, "#error" + A + B, "#if" + A + B + "\n", "#endif" + A + B, "#else" + A + B, "#ifdef A\nx" + A + B):
        add("seg32", t, R, R)
    WORDS = ["#ifdef A", "#ifndef A", "#ifdef B", "#else", "#endif", "#define A 1", "#undef A", "#if 0", "A x"]
    for n in range(1, 7 if deep else 6):
        for ws in itertools.product(WORDS, repeat=n):
            d = 0
            ok = n < 4
            if not ok:
                # longer ones: only those that open before they close and end with text
                if ws[-1] != "A x" or ws[0] == "A x":
                    continue
                for w in ws:
                    d += w.startswith("#if")
                    d -= w == "#endif"
                    if d < 0 or w == "#else" and d == 0:
                        d = -9
                if d < 0:
                    continue
                if n > 4 and not deep and not ("#else" in ws and ("#define A 1" in ws or "#undef A" in ws) or d == 0 and "#else" in ws):
                    continue
            add("seg32", "#define B\n" + "\n".join(ws) + "\n" + ("#endif\n" * max(d, 0)) + "z")
    for n in (7, 8, 9):
        add("seg32", "#ifdef __SMALLER_C__\n" * n + "x" + A + "\n" + "#else\n#endif\n" * n + "y" + B, SHORT, SHORT)
        add("seg32", "#ifdef Z\n" * n + "x\n" + "#else\n#endif\n" * n + "y")
    # inclusion
    for t in ('#include "a.h"' + A + B + "\nx", "#include" + A + "<a.h>" + B + "\nx", "#include " + A + "a.h" + B + "\nx", '#include "a' + A + 'h"' + B + "\nx"):
        add("search", t, REP, REP, a_h="inc __FILE__ __LINE__ ", u1__a_h="u1 __FILE__", s1__a_h="s1 __FILE__", s2__a_h="s2")
    places = ["a_h", "u1__a_h", "u2__x__a_h", "s1__a_h", "s2__a_h"]
    for q in ('"a.h"', "<a.h>"):
        for k in range(1 << len(places)):
            fs = {p: "from_%s __LINE__ __FILE__\n" % p for i, p in enumerate(places) if k >> i & 1}
            add("search", "one\n#include " + q + A + "\ntwo __LINE__ __FILE__", chars(" \n"), **fs)
    for body in ("x" + A, A + B, "x\n" + A + B, "/*" + A, '"' + A, "'" + A + "'", "#define Q q" + A, "#define Q q\n" + A, "#ifdef Z" + A, "//" + A + B, "#include \"b.h\"" + A + "w" + B, "#line 5 \"zz\"" + A + "\n__FILE__"):
        add("seg32", "1\n#include \"a.h\"\nQ __LINE__ __FILE__ 2", REP, REP, a_h=body, b_h="b __FILE__ __LINE__")
    for n in (5, 6, 7, 8):
        fs = {"h%d_h" % i: "l%d __FILE__\n#include \"h%d.h\"\nr%d __LINE__ __FILE__\n" % (i, i + 1, i) for i in range(1, n)}
        fs["h%d_h" % n] = "deep" + A
        add("seg32", "#include \"h1.h\"\nend __LINE__ __FILE__", SHORT, **fs)
    add("search", "#include \"a.h\"\n#include <a.h>\n#include \"a.h\"\nend __LINE__ __FILE__" + A, SHORT, a_h="p __LINE__\n", s1__a_h="q __LINE__\n")
    add("seg32", "#include \"" + "n" * 250 + A + B + C + ".h\"\nx", chars("n\""), chars("n"), chars("n"))
    # packing
    NUM = DIG | chars(" ),x")
    for model in ("seg32", "seg16"):
        for t in ("#pragma pack(" + A + B + ")\nx", "#pragma pack(" + A + ")\nx" + B, "#pragma pack" + A + "2" + B + "\nx", "#pragma" + A + "pack(2" + B + "\nx", "#pragma pack(push" + A + "2" + B + "\nx",
                  "#pragma pack(push," + A + B + ")\nx", "#pragma pack(2)\n#pragma pack(push" + A + ")\n#pragma pack(1)" + B + "\n#pragma pack(pop)\nx", "#pragma pack(pop" + A + B, "#pragma pack(p" + A + "p" + B + ")",
                  "#pragma pack(1)" + A + B + "\nx", "#pragma pack( " + A + " ) " + B + "\nx", "#" + A + "pragma pack(1)" + B, "#pragma " + A + B + "(1)\n"):
            add(model, t, REP | NUM, REP | NUM)
        W = ["(1)", "(2)", "(4)", "()", "(push)", "(push,1)", "(push, 2)", "(pop)"]
        for n in range(1, 6 if deep else 5):
            for ws in itertools.product(W, repeat=n):
                if model == "seg16" and n > 3 or n == 5 and ws[0][:5] != "(push":
                    continue
                add(model, "\n".join("#pragma pack" + w for w in ws) + "\nx")
    for n in (15, 16, 17):
        add("seg32", "".join("#pragma pack(push,%d)\n" % (1 << i % 3) for i in range(n)) + "#pragma pack(pop)\n" * (n - 1) + "x")
    # predefined macros
    names = ["__SMALLER_C__", "__SMALLER_C_16__", "__SMALLER_C_32__", "__HUGE__", "__UNREAL__", "__SMALLER_C_SCHAR__", "__SMALLER_C_UCHAR__", "__SMALLER_C_SWCHAR__", "__SMALLER_C_UWCHAR__",
             "__SMALLER_C_WCHAR16__", "__SMALLER_C_WCHAR32__", "AA", "_b9", "CC"]
    for m in OPTS:
        add(m, "".join("#ifdef %s\n%s yes\n#else\n%s no\n#endif\n" % (n, n, n) for n in names) + A, SHORT)
    return P


def judge(R, what, plan):
    _lex.clear()
    for m in sorted({x[0] for x in plan}):
        lexer(m)
        R.count("option sets")

    def work(i):
        model, fs, sets = plan[i]
        L = lexer(model)
        L.covered = set()
        try:
            bad, n, seen = check(L, fs, sets)
        except AnalysisError as e:
            raise AnalysisError("%s (text %s)" % (e, show(fs["in.c"])))
        return bad, n, seen, sorted(L.covered)
    cov = set()
    for (model, fs, sets), (bad, n, seen, c) in zip(plan, par.pmap(work, range(len(plan)), chunk=8)):
        R.count("text templates")
        R.count("paths", n)
        R.count("texts covered", seen)
        cov |= set(c)
        t = fs["in.c"]
        R.sample("%s: %s" % (model, show(t)))
        for d, txt, end, loc in bad:
            R.violation("%s:%s:%s" % (model, show(t)[:60], d[:60]), where(lexer(model), loc, end), "the text %s gives %s (%s)" % (show(txt), d, " ".join(OPTS[model][0])))
    R.count("basic blocks analysed", len(cov))
    R.need("text templates", 100)
    R.need("texts covered", 100000)


def show(t):
    return repr("".join("?%d" % (ord(c) - 0xe000) if 0xe001 <= ord(c) <= 0xe006 else c for c in t if ord(c) < 0x100 or ord(c) > 0xe000))[1:-1][:160]


def where(L, loc, end):
    if loc:
        fn, _, ln = loc.split(" < ")[0].partition(":")
        return "v0100/smlrc.c:%s (%s)" % (ln, fn)
    f = L.F.M.func("GetToken")
    return "v0100/smlrc.c:%s (GetToken)" % getattr(f, "line", "?")


RULE = ("The lexer and preprocessor are interpreted over texts with unknown bytes, each path holding a set of values per byte; for every value in the sets of every path the tokens, lines, values and "
        "effects are compared with an independent reading of C's lexical rules and the documented directives, and the paths must cover the whole value space.")


def f10(R):
    R.rule(RULE)
    R.assume += ["texts contain no NUL byte", "conversion of decimal digits to binary floating point is taken by contract"]
    judge(R, "F10", f10plan(R.thorough))


def f11(R):
    R.rule(RULE)
    R.assume += ["texts contain no NUL byte", "what C leaves undefined (directives after other tokens, pasted numbers, self-referential macros) is not judged"]
    judge(R, "F11", f11plan(R.thorough))
