"""C library: formatted input and text to floating point."""
import itertools
import terms as T, clib, par
from terms import isc, mask
from sai import AnalysisError, P, F, State, Forks, isfault
from clib import Buf, byt, nz
from libnum import narrow, ctype_hooks, RNG, CLASSES, subk, same, tpl, states
from libfmt import D, variadic, feasible

FILES = ["doscan.c", "strchr.c", "memcpy.c"]
SFILES = FILES + ["sscanf.c", "vsscanf.c", "fgetc.c", "ungetc.c", "fillbuf.c", "strlen.c"]
WFILES = FILES + ["scanf.c", "fscanf.c", "vscanf.c", "vfscanf.c", "stdin.c"]
FFILES = ["strtof.c", "strtod.c", "atof.c", "memcpy.c", "errno.c"]
INF, NAN = 0x7f800000, 0x7fc00000


def member(x, ranges):
    """whether a template character lies in the ranges"""
    if isinstance(x, tuple):
        rs = RNG[x[0]]
        inn = [any(lo <= a and b <= hi for lo, hi in ranges) for a, b in rs]
        out = [all(b < lo or a > hi for lo, hi in ranges) for a, b in rs]
        if all(inn):
            return True
        if all(out):
            return False
        raise AnalysisError("template character %s is partly in a class" % x)
    return any(lo <= ord(x) & 255 <= hi for lo, hi in ranges)


def space(x):
    return member(x, CLASSES["isspace"])


def eqc(x, s):
    """x is one of the characters s (either case where s has both)"""
    return member(x, [(ord(c), ord(c)) for c in s])


class Fail(Exception):
    def __init__(self, eof, partial=False):
        self.eof, self.partial = eof, partial


class Scan:
    """C's scanf over a template"""

    def __init__(self, items, bs, W):
        self.it, self.bs, self.W = items, bs, W
        self.pos = 0
        self.cnt = 0
        self.done = 0
        self.stores = []        # (directive index, kind, value)

    def at(self, k):
        return self.it[k] if k < len(self.it) else None

    def dig(self, k, base):
        """(digit value term) or None"""
        x = self.at(k)
        if x is None:
            return None
        if isinstance(x, tuple):
            n = {"D": 10, "O": 8}.get(x[0])
            if n is None:
                return None
            if base < n:
                raise AnalysisError("template digit in base %d" % base)
            return T.sub(self.W, T.zext(8, self.bs[k], self.W), 48)
        if x in "0123456789":
            v = ord(x) - 48
        elif x.isascii() and x.isalpha():
            v = ord(x.lower()) - 87
        else:
            return None
        return v if v < base else None

    def skip(self):
        while self.at(self.pos) is not None and space(self.at(self.pos)):
            self.pos += 1

    def run(self, parts):
        """(acceptable results, consumed)"""
        try:
            k = 0
            for p in parts:
                if isinstance(p, str):
                    i = 0
                    while i < len(p):
                        c = p[i]
                        if c in " \t\n\v\f\r":
                            self.skip()
                            i += 1
                            continue
                        if c == "%":
                            self.skip()
                        x = self.at(self.pos)
                        if x is None:
                            raise Fail(True)
                        if not member(x, [(ord(c), ord(c))]):
                            raise Fail(False)
                        self.pos += 1
                        i += 1
                    continue
                self.conv(p, k)
                k += 1
        except Fail as f:
            if not f.eof:
                return {self.cnt}, self.pos
            if self.cnt:
                return {self.cnt}, self.pos
            if f.partial or self.done:
                return {0, -1}, self.pos
            return {-1}, self.pos
        return {self.cnt}, self.pos

    def conv(self, p, k):
        c = p.conv
        sup = "*" in p.flags
        if c == "n":
            self.stores.append((k, "n", self.pos))
            return
        if c not in "c[" and not c.startswith("["):
            self.skip()
        if self.at(self.pos) is None:
            raise Fail(True)
        w = p.width if p.width is not None else 1 if c == "c" else 1 << 30
        if c == "c":
            have = min(w, len(self.it) - self.pos)
            bs = self.bs[self.pos:self.pos + have]
            self.pos += have
            if have < w:
                self.stores.append((k, "any", None))
                raise Fail(True, True)
            val = ("bytes", bs)
        elif c == "s" or c.startswith("["):
            if c == "s":
                ok = lambda x: not space(x)
            else:
                neg = c.startswith("[^")
                st = c[2 if neg else 1:-1]
                ok = lambda x: eqc(x, st) != neg
            n = 0
            while n < w and self.at(self.pos + n) is not None and ok(self.at(self.pos + n)):
                n += 1
            if n == 0:
                raise Fail(False)
            val = ("bytes", self.bs[self.pos:self.pos + n] + [0])
            self.pos += n
        elif c in "efgEFG":
            val = ("flt", self.flt(w))
        else:
            val = ("int", self.integer(c, w))
        self.done += 1
        if not sup:
            self.stores.append((k,) + val)
            self.cnt += 1

    def integer(self, c, w):
        end = self.pos + w
        lim = lambda: self.at(self.pos) if self.pos < end else None

        def fail():
            raise Fail(self.pos < end and self.at(self.pos) is None, True)
        base = {"d": 10, "u": 10, "o": 8, "x": 16, "X": 16, "p": 16, "i": 0}[c]
        neg = False
        if lim() in ("+", "-"):
            neg = lim() == "-"
            self.pos += 1
        if lim() is None:
            fail()
        v = None
        if base in (0, 16) and lim() == "0":
            self.pos += 1
            if lim() in ("x", "X"):
                self.pos += 1
                base = 16
            else:
                v = 0
                base = base or 8
        base = base or 10
        while lim() is not None:
            d = self.dig(self.pos, base)
            if d is None:
                break
            v = T.add(self.W, T.mul(self.W, v or 0, base), d)
            self.pos += 1
        if v is None:
            fail()
        return T.neg(self.W, v) if neg else v

    def flt(self, w):
        end = self.pos + w
        start = self.pos
        lim = lambda: self.at(self.pos) if self.pos < end else None

        def fail():
            raise Fail(self.pos < end and self.at(self.pos) is None, True)
        neg = False
        if lim() in ("+", "-"):
            neg = lim() == "-"
            self.pos += 1
        if lim() is None:
            fail()
        x = lim()
        if not isinstance(x, tuple) and x in "iInN":
            word = "infinity" if x in "iI" else "nan"
            n = 0
            while n < len(word) and lim() is not None and not isinstance(lim(), tuple) and lim().lower() == word[n]:
                self.pos += 1
                n += 1
            if n not in (3, 8):
                fail()
            return word[:3], neg
        ds, e, got = [], 0, False
        frac = False
        while lim() is not None:
            d = self.dig(self.pos, 10)
            if d is None:
                if lim() == "." and not frac:
                    frac = True
                    self.pos += 1
                    continue
                break
            ds.append(d)
            got = True
            e -= frac
            self.pos += 1
        if not got:
            fail()
        if lim() in ("e", "E"):
            self.pos += 1
            eneg = False
            if lim() in ("+", "-"):
                eneg = lim() == "-"
                self.pos += 1
            ev = None
            while lim() is not None:
                d = self.dig(self.pos, 10)
                if d is None:
                    break
                if not isc(d):
                    raise AnalysisError("unknown exponent digit")
                ev = (ev or 0) * 10 + d
                self.pos += 1
            if ev is None:
                fail()
            e += -ev if eneg else ev
        return (tuple(ds), e), neg


CAP = 1 << 30


def decimals(st, got, want):
    """got digits x 10^ge denotes want digits x 10^we (at least 17 significant digits of it)"""
    (g, ge), (w, we) = got, want
    k = lambda x: x if isc(x) else subk(st, x)
    g = [k(x) for x in g]
    w = [k(x) for x in w]
    zero = lambda x: isc(x) and x == 0 or not isc(x) and st.decide(T.cmp_("eq", x.w, x, 0)) == 1
    while g and zero(g[0]):
        g.pop(0)
    while w and zero(w[0]):
        w.pop(0)
    if not g or not w:
        return not g and not w
    if abs(we) > 200000:
        return abs(ge) > 5000 and (ge > 0) == (we > 0)
    # position of the leading digit
    if len(g) + ge != len(w) + we:
        return False
    n = max(len(g), len(w)) if len(w) <= 112 else min(len(w), 60)
    for i in range(n):
        a = g[i] if i < len(g) else 0
        b = w[i] if i < len(w) else 0
        if isc(a) and isc(b):
            if a != b:
                return False
            continue
        wa = b.w if not isc(b) else a.w
        if not isc(a) and a.w < wa:
            a = T.zext(a.w, a, wa)
        if not isc(b) and not isc(a) and b.w < a.w:
            b = T.zext(b.w, b, a.w)
        if a is b or st.decide(T.cmp_("eq", wa, a, b)) == 1:
            continue
        x = T.subst(T.sub(wa, a, b), st.eqs) if st.eqs else T.sub(wa, a, b)
        if not (isc(x) and x == 0):
            # both are the same digit if they agree for each of its values
            sy = sorted(T.syms(x), key=lambda t: t.n)
            if len(sy) != 1 or any(T.subst(x, {sy[0]: v}) != 0 for v in range(48, 58)):
                return False
    return True


class Tape:
    """hooks that stand for a stream holding the template"""

    def __init__(self, M, items, bs):
        self.M, self.items, self.bs, self.W = M, items, bs, M.pw

    def hooks(self):
        h = ctype_hooks()
        h.update({"fgetc": self.fgetc, "ungetc": self.ungetc, "__cvtfd": self.cvt})
        return h

    def fgetc(self, I, st, a, line):
        p = st.user.get("pos", 0)
        st.user = dict(st.user)
        st.user["file"] = a[0]
        st.user["pushed"] = 0
        if p >= len(self.items):
            return mask(self.W)
        st.user["pos"] = p + 1
        return T.zext(8, self.bs[p], self.W)

    def ungetc(self, I, st, a, line):
        if isc(a[0]) and a[0] == mask(self.W):
            return mask(self.W)
        p = st.user.get("pos", 0)
        if p == 0 or st.user.get("pushed"):
            raise AnalysisError("out of bounds push back")
        b = T.ext(self.W, a[0], 0, 8)
        e = self.bs[p - 1]
        if not (b is e or isc(b) and isc(e) and b == e or st.decide(T.cmp_("eq", 8, b, e)) == 1 or same(st, b, e, 8)):
            raise AnalysisError("out of bounds push back of another character")
        st.user = dict(st.user)
        st.user["pos"] = p - 1
        st.user["pushed"] = 1
        return T.zext(8, b, self.W)

    def cvt(self, I, st, a, line):
        buf, n, e = a
        if not isc(n) or not isc(e):
            raise AnalysisError("unknown number of digits")
        n = T.sgn(n, 32)
        ds = tuple(st.load(P(buf.obj, (buf.off + i) & 0xffffffff), 1) for i in range(n))
        k = len(st.user.get("cvt", ()))
        st.user = dict(st.user)
        st.user["cvt"] = st.user.get("cvt", ()) + ((ds, T.sgn(e, 32)),)
        return T.sym("float%d" % k, 32)


def text(items):
    return "".join(x if not isinstance(x, tuple) else "<%s>" % x[0] for x in items)


def fmt_text(parts):
    return "".join(p.replace("%", "%%") if isinstance(p, str) else p.text() for p in parts)


def fl(v):
    """a floating value without conversions between types of the same format"""
    while not isc(v) and v.op == "fn" and str(v.args[0]).split(".")[0] in ("fpext", "fptrunc"):
        v = v.args[1]
    if not isc(v) and v.op == "fn" and "fneg" in str(v.args[0]):
        x = fl(v.args[1])
        return x ^ 0x80000000 if isc(x) else T.fn("fneg", 32, x)
    return v


SIZE = {"hh": 1, "h": 2}


def dest(p, W):
    if p.conv == "c":
        return p.width or 1
    if p.conv == "s" or p.conv.startswith("["):
        return (p.width if p.width is not None else 24) + 1
    if p.conv in "efgEFG":
        return 4
    return SIZE.get(p.mod, W // 8)


def start(M, items):
    """states with the template's unknowns in their classes"""
    W = M.pw
    sts, B = states(M, type("T", (), {"items": items})())
    return sts, B


def judge(M, st, what, at, parts, items, B, objs, ret, pos, W, cvt):
    bad = []
    sc = Scan(items, [subk(st, b) if not isc(b) else b for b in B.init[:-1]], W)
    rets, end = sc.run(parts)
    if not isc(ret) or T.sgn(ret, W) not in rets:
        bad.append(("result", "%s returns %s instead of %s" % (what, T.sgn(ret, W) if isc(ret) else ret, " or ".join(map(str, sorted(rets)))), at))
    if pos is not None and pos != end:
        bad.append(("consumed", "%s consumes %d characters instead of %d" % (what, pos, end), at))
    want = {k: (kind, v) for k, kind, v in sc.stores}
    for k, o in enumerate(objs):
        if o is None:
            continue
        got = o.bytes(st)
        kind, v = want.get(k, (None, None))
        if kind == "any":
            continue
        if kind is None:
            exp = o.init if not any(True for kk in want if kk > k) else o.init
            p = [x for x in parts if not isinstance(x, str)][k]
            if p.conv == "s" or p.conv == "c" or p.conv.startswith("["):
                continue        # may hold part of a failed item
        elif kind == "bytes":
            exp = v + o.init[len(v):]
        elif kind == "flt":
            (val, neg) = v
            bits = fl(st.load(o.at(0), 4))
            if val == "inf" or val == "nan":
                ok = isc(bits) and (bits & 0x7fffffff == INF if val == "inf" else bits & 0x7fffffff > INF) and (val == "nan" or bool(bits >> 31) == neg)
            else:
                ok = False
                for i, c in enumerate(cvt):
                    s = T.sym("float%d" % i, 32)
                    if isneg(bits, s, neg):
                        ok = decimals(st, c, val)
            if not ok:
                bad.append(("value", "%s stores the wrong floating value for conversion %d (%s)" % (what, k + 1, [(
                    "".join(str(x) if isc(x) else "?" for x in c[0]), c[1]) for c in cvt] or bits), at))
            continue
        else:
            n = o.size
            exp = [T.ext(W, v, 8 * i, 8) if not isc(v) else v >> (8 * i) & 255 for i in range(n)] if kind == "int" else [v >> (8 * i) & 255 for i in range(n)]
        for i, (g, e) in enumerate(zip(got, exp)):
            if not same(st, g, e, 8):
                bad.append(("value", "%s: byte %d of the object of conversion %d becomes %s instead of %s" % (what, i, k + 1, g, e), at))
                break
    return bad


def isneg(bits, s, neg):
    if isc(bits):
        return False
    if not neg:
        return bits is s
    return bits.op == "fn" and "fneg" in str(bits.args[0]) and bits.args[1] is s or bits is T.xor(32, s, 0x80000000)


def run_case(M, parts, items):
    W = M.pw
    bad = []
    n = 0
    sts, B = start(M, items)
    what = 'scanf("%s") of "%s"' % (fmt_text(parts), text(items))
    at = clib.whereis(M, "__doscan")
    for st in sts:
        objs, words = [], []
        for p in parts:
            if isinstance(p, str):
                continue
            if "*" in p.flags:
                objs.append(None)
                continue
            o = Buf(st, "d%d" % len(objs), [], dest(p, W))
            objs.append(o)
            words.append(o.at(0))
        vl = st.newobj("args", max(len(words), 1) * W // 8)
        for i, w in enumerate(words):
            st.store(P(vl.obj, i * W // 8), W // 8, w)
        ft = Buf(st, "fmt", [ord(c) & 255 for c in fmt_text(parts)] + [0])
        stream = Buf(st, "stream", [0] * 64)
        tp = Tape(M, items, B.init)
        I = clib.interp(M, tp.hooks(), maxstates=100000)
        faults = []

        def rec(s, e):
            if not isfault(e):
                return False
            faults.append((str(e), clib.where(I, s)))
            return True
        I.recover = rec
        for s in I.run(st, "__doscan", [stream.at(0), ft.at(0), vl]):
            n += 1
            if not feasible(s):
                continue
            bad += judge(M, s, what, at, parts, items, B, objs, s.ret, s.user.get("pos", 0), W, s.user.get("cvt", ()))
            if s.user.get("file", stream.at(0)) != stream.at(0):
                bad.append(("stream", "%s reads another stream" % what, at))
        for m, w in faults[:1]:
            bad.append(("fault", "%s: %s" % (what, m), w))
    return bad[:2], n


# ---------------------------------------------------------------- cases
def T_(s):
    return tpl(s).items


INTS = ["", " ", "12", "-12", "+12", " \t\n12", "12x", "x12", "-", "+", "- 1", "+-1", "0", "00", "0x", "0X", "0xg", "0x1f", "0X1Fg", "08", "017", "0178", "-0x1F", "-017",
        "00x1", "0x0x1", "x1", "9a", "ffz", "FF", "7fff", "123456", "<D>", "<D><D>", "<D><X>", "<S><D>", "-<D>;", "<X>", "<S>", "0<O>", "1<D>2", "<S><S>-<D>", "7:3", "0", "0 ", "g", "a", "F"]
FLTS = ["", " ", "1", "-1", "+1.5", "1.", ".5", ".", "-.", "+", "1e5", "1e", "1e+", "1E-3", "1e+7x", "1.5e", "0", "00.00", "0.000", ".0", "0e5", "0x", "inf", "INFINITY", "-inf",
        "infi", "infx", "in", "nan", "-nan", "na", "nanx", "1.2.3", "1..2", "e5", ".e5", "1,5", "<D>", "<D>.<D>", "1.<D>e2", ".0<D>", "0.00<D>", "<Y>", "<S>1<D>", "1<Y>",
        "1e99", "1e-99", "100", "1000e-3", "0.1000", "1.50e10", "12345678901234567890", "0001.5", "000.0005e3", "1e400", "1e12345678901", "1e-12345678901", "0e12345678901",
        "1" + "0" * 110, "1" + "0" * 111, "1" + "0" * 112, "1" + "0" * 130, "0.1" + "0" * 111, "0.1" + "0" * 112, "0.1" + "0" * 130, "3." + "1" * 150, "3" * 150, "0." + "0" * 150 + "7",
        "1.5" + "0" * 150 + "e3", "7" * 113 + "." + "8" * 20, "0" * 150 + "1", "1" * 120 + "e-100", "1" * 112 + "e3", "1" * 111 + ".1" + "e3"]
STRS = ["", " ", "abc", "a b", "  abc d", "\tx", "<X><X>", "<X><S><X>", "]ab", "aab", "bxa", "^a", "a", "xyz", "<S>", "a-c", "%5", "x\n"]


def cases(W, deep):
    out = []
    n = D("n")
    for c in "diuoxXp":
        for t in INTS:
            t = T_(t)
            if any(isinstance(x, tuple) and x[0] == "D" for x in t) and c == "o" or ("D",) in t and c == "i" and t[0] != "1":
                continue
            for w in (None, 1, 2, 3, 4, 20) if deep or c in "dix" else (None, 2):
                if w is None or len(t):
                    out.append(([D(c, "", w), n], t))
    for m in ("hh", "h") + (("l",) if W == 32 else ()) + ("j", "z", "t"):
        for c in "diuox" if m in ("hh", "h") else "dx":
            for t in ("12", "-5", "300", "0", "x", "12345"):
                out.append(([D(c, "", None, None, m), D("n", "", None, None, m)], T_(t)))
    for c in "dxs":
        for t in ("12 34", "12", "x", "", " 5x", "5 x"):
            out.append(([D(c, "*"), D(c), n], T_(t)))
            out.append(([D(c, "*", 1), D("c"), n], T_(t)))
            out.append(([D(c), D(c, "*"), n], T_(t)))
    for t in STRS:
        t = T_(t)
        cs = ["s", "c", "[ab]", "[^ab]", "[]a]", "[^]a]", "[a]", "[ \t]", "[^ ]", "[xyz%]", "[a^]", "[,]"]
        for c in cs:
            if any(isinstance(x, tuple) for x in t) and c not in ("s", "c") and not (("S",) not in t and c in ("[1]",)):
                continue
            for w in (None, 1, 2, 3) if c != "c" else (None, 1, 2, 3):
                out.append(([D(c, "", w), n], t))
                if c in ("s", "c", "[ab]"):
                    out.append(([D(c, "*", w), n, D("c")], t))
    lits = [([" ", n], ["", " ", "  x", "\n\t ", "x"]), (["ab", n], ["ab", "a", "ac", " ab", "abc", "", "b"]), (["a b", n], ["ab", "a b", "a  b", "ax", "a"]),
            (["%", n], ["%", " %", "x", "", " x"]), ([D("d"), "%", D("d"), n], ["5%6", "5 % 6", "5x6", "5%", "5"]), ([D("d"), ",", D("d"), n], ["1,2", "1, 2", "1 ,2", "1,x", "1"]),
            ([D("d"), " , ", D("d"), " ", n], ["1,2", "1 , 2", "1 ,2 ", "1,x", "1", "1 "]), ([D("d"), " ", n], ["5", "5 ", "5  x"]), ([D("x"), D("d"), D("o"), n], ["ff -3 17", "1g", "1 2"]),
            (["x", D("d"), "y", n], ["x1y", "x1", "x1z", "1"]), ([D("s"), D("d"), D("c"), D("[ab]"), n], ["w 5xab", "w 5", "w", "w 5x", "w 5xc"]), ([n], ["", "a"]), ([], ["", "a"]),
            (["\t", D("c"), n], ["  a", "a", " "]), (["a%b", n], ["a%b", "a %b", "a% b"]), (["é", n], ["é", "e"])]
    for p, ts in lits:
        for t in ts:
            out.append((p, T_(t)))
    if W == 32:
        for t in FLTS:
            t = T_(t)
            for c in "efgEFG" if deep else "fg":
                for w in (None, 1, 2, 3, 4, 6) if len(t) < 12 else (None,):
                    if (w is None or len(t)) and (c == "f" or w is None or deep):
                        out.append(([D(c, "", w), n], t))
        for t in ("1.5 2", "x", "-3e2;"):
            out.append(([D("f", "*"), D("c"), n], T_(t)))
            out.append(([D("f"), D("f"), n], T_(t)))
        out.append(([D("f", "", None, None, "l"), D("d"), D("e", "", None, None, "L")], T_("1.25 -7 .5e1")))
    return out


def dup(out):
    seen, r = set(), []
    for p, t in out:
        k = (fmt_text(p), tuple(t))
        if k not in seen:
            seen.add(k)
            r.append((p, t))
    return r


# ---------------------------------------------------------------- sources
def run_string(M, fn, parts, items, v):
    """sscanf and vsscanf read exactly the string"""
    W = M.pw
    st = State(M)
    B = Buf(st, "t", [ord(c) & 255 for c in items] + [0])
    objs, words = [], []
    for p in parts:
        if not isinstance(p, str):
            o = Buf(st, "d%d" % len(objs), [], dest(p, W))
            objs.append(o)
            words.append(o.at(0))
    vl = st.newobj("args", max(1, len(words)) * W // 8)
    for i, w in enumerate(words):
        st.store(P(vl.obj, i * W // 8), W // 8, w)
    ft = Buf(st, "fmt", [ord(c) & 255 for c in fmt_text(parts)] + [0])
    hk = ctype_hooks()
    I = clib.interp(M, hk)
    variadic(I, words, W, ft.at(0))
    what = '%s("%s", "%s")' % (fn, "".join(items), fmt_text(parts))
    at = clib.whereis(M, fn)
    faults = []

    def rec(s, e):
        if not isfault(e):
            return False
        faults.append((str(e), clib.where(I, s)))
        return True
    I.recover = rec
    bad = []
    for s in I.run(st, fn, [B.at(0), ft.at(0)] + ([vl] if v else [])):
        bad += judge(M, s, what, at, parts, items, B, objs, s.ret, None, W, ())
        if B.bytes(s) != B.init:
            bad.append(("memory", "%s modifies the string" % what, at))
    for m, w in faults[:1]:
        bad.append(("fault", "%s: %s" % (what, m), w))
    return bad[:2], 1


def run_wrap(M, fn, v):
    W = M.pw
    st = State(M)
    ft = Buf(st, "fmt", [65, 0])
    words = [11, 22, 33]
    vl = st.newobj("args", 3 * W // 8)
    for i, w in enumerate(words):
        st.store(P(vl.obj, i * W // 8), W // 8, w)
    stream = Buf(st, "stream", [0] * 64)
    R = T.sym("result", W)
    seen = []

    def ds(I, s, a, line):
        f, fm, al = a
        got = []
        try:
            for i in range(3):
                got.append(s.load(P(al.obj, (al.off + i * W // 8) & mask(W)), W // 8))
        except AnalysisError as e:
            if not isfault(e):
                raise
        seen.append((f, fm == ft.at(0), got))
        return R
    I = clib.interp(M, {"__doscan": ds})
    variadic(I, words, W, ft.at(0))
    a = ([stream.at(0)] if fn in ("fscanf", "vfscanf") else []) + [ft.at(0)] + ([vl] if v else [])
    at = clib.whereis(M, fn)
    bad = []
    for s in I.run(st, fn, a):
        if s.ret is not R or len(seen) != 1:
            bad.append(("result", "%s does not return the number of assignments" % fn, at))
            continue
        f, ok, got = seen[0]
        exp = stream.at(0) if a[0] == stream.at(0) else s.load(P("__stdin", 0), W // 8)
        if f != exp:
            bad.append(("stream", "%s reads another stream" % fn, at))
        if not ok or got != words:
            bad.append(("arguments", "%s passes the format and arguments on wrongly (%s)" % (fn, got), at))
    return bad, 1


def strings_():
    out = []
    for t in ("12 ab -7", "12", "", " ", "x"):
        for fn, v in (("sscanf", 0), ("vsscanf", 1)):
            out.append((fn, [D("d"), D("s"), D("d"), D("n")], list(t), v))
            out.append((fn, [D("c"), D("[12]"), " ", D("n")], list(t), v))
            out.append((fn, ["12", D("x"), D("n")], list(t), v))
    return out


# ---------------------------------------------------------------- strtof, strtod, atof
def run_strtof(M, fn, items, endp):
    W = 32
    sts, B = start(M, items)
    bad = []
    n = 0
    at = clib.whereis(M, "strtof")
    what = '%s("%s")' % (fn, text(items))
    # expected
    sc = Scan(items, B.init[:-1], W)
    sc.skip()
    try:
        p0 = sc.pos
        val, neg = sub_flt(sc)
        end = sc.pos
    except Fail:
        val, neg, end = None, False, 0
    for st in sts:
        e = st.newobj("end", 4)
        st.store(e, 4, 0x5a5a)
        st.gset("errno", 0x77, 4)
        tp = Tape(M, items, B.init)
        I = clib.interp(M, tp.hooks())
        faults = []

        def rec(s, er):
            if not isfault(er):
                return False
            faults.append((str(er), clib.where(I, s)))
            return True
        I.recover = rec
        for s in I.run(st, fn, [B.at(0)] + ([] if fn == "atof" else [e if endp else 0])):
            n += 1
            if not feasible(s):
                continue
            cv = s.user.get("cvt", ())
            r = fl(s.ret)
            if val is None:
                ok = isc(r) and r == 0
            elif val in ("inf", "nan"):
                ok = isc(r) and (r & 0x7fffffff == INF if val == "inf" else r & 0x7fffffff > INF) and (val == "nan" or bool(r >> 31) == neg)
            else:
                ok = len(cv) == 1 and isneg(r, T.sym("float0", 32), neg) and decimals(s, cv[0], val)
            if not ok:
                bad.append(("value", "%s yields %s (converted from %s)" % (what, hex(r) if isc(r) else r, [("".join(str(x) if isc(x) else "?" for x in c[0]), c[1]) for c in cv]), at))
            en = s.gget("errno", 4)
            inf = [v for c, v in s.facts.items() if "fcmp" in str(c)]
            we = 34 if inf and inf[0] and val not in ("inf", "nan", None) else 0x77
            if en != we and not (val is None):
                bad.append(("errno", "%s leaves errno %s instead of %s" % (what, en, "ERANGE" if we == 34 else "unchanged"), at))
            if endp and fn != "atof":
                g = s.load(e, 4)
                if isinstance(g, T.Term):
                    g = clib.i2p(M, g)
                if g != B.at(end):
                    bad.append(("end", "%s stores the end %s instead of %d" % (what, g, end), at))
        for m, w in faults[:1]:
            bad.append(("fault", "%s: %s" % (what, m), w))
    return bad[:2], n


def sub_flt(sc):
    """the longest initial part strtod accepts"""
    it, p0 = sc.it, sc.pos
    best = None
    p = p0
    neg = False
    if sc.at(p) in ("+", "-"):
        neg = sc.at(p) == "-"
        p += 1
    lw = lambda k: sc.at(k).lower() if sc.at(k) is not None and not isinstance(sc.at(k), tuple) else None
    for word in ("infinity", "inf", "nan"):
        if all(lw(p + i) == c for i, c in enumerate(word)):
            sc.pos = p + len(word)
            return word[:3], neg
    ds, e, frac, got = [], 0, False, False
    q = p
    while sc.at(q) is not None:
        d = sc.dig(q, 10)
        if d is None:
            if sc.at(q) == "." and not frac:
                frac = True
                q += 1
                continue
            break
        ds.append(d)
        e -= frac
        got = True
        q += 1
    if not got:
        raise Fail(False)
    if lw(q) == "e":
        r = q + 1
        s = 1
        if sc.at(r) in ("+", "-"):
            s = -1 if sc.at(r) == "-" else 1
            r += 1
        v = None
        while sc.dig(r, 10) is not None and isc(sc.dig(r, 10)):
            v = (v or 0) * 10 + sc.dig(r, 10)
            r += 1
        if v is not None:
            q = r
            e += s * v
    sc.pos = q
    return (tuple(ds), e), neg


def scanning(R):
    deep = R.thorough
    R.rule("Abstract interpretation of the input scanner over formats and texts with unknown digits, white space and other characters: result, stored objects, characters "
           "consumed and counted are compared with C's matching rules on every path; floating values are compared as the decimal digits and exponent handed to the converter.")
    R.assume += ["__cvtfd converts digits and exponent to the nearest float"]
    R.files = ()
    items = []
    for cfg, names in clib.variants(SFILES + WFILES[len(FILES):] + FFILES):
        W = 16 if cfg == "small" else 32
        R.count("library variants")
        for p, t in dup(cases(W, deep)):
            items.append((cfg, "scan", (p, t)))
        for x in strings_():
            items.append((cfg, "str", x))
        for f, v in (("scanf", 0), ("fscanf", 0), ("vscanf", 1), ("vfscanf", 1)):
            items.append((cfg, "wrap", (f, v)))
        if W == 32:
            for t in FLTS + ["<S><S>-<D>.5", "1e5<Y>", "1e<Y>", "1e+<Y>", "infinit", "1.5e-", "--1", "nan1", "INF1"]:
                for f, e in (("strtof", 1), ("strtof", 0), ("strtod", 1), ("atof", 0)):
                    items.append((cfg, "strtof", (f, T_(t), e)))

    def work(i):
        cfg, k, x = items[i]
        if k == "scan":
            return run_case(clib.load(cfg, FILES), *x)
        if k == "str":
            return run_string(clib.load(cfg, SFILES), *x)
        if k == "strtof":
            return run_strtof(clib.load(cfg, FFILES), *x)
        return run_wrap(clib.load(cfg, WFILES), *x)
    for c in {x[0] for x in items}:
        clib.load(c, FILES), clib.load(c, SFILES), clib.load(c, WFILES), c != "small" and clib.load(c, FFILES)
    for (cfg, k, x), (bad, n) in zip(items, par.pmap(work, range(len(items)), chunk=16)):
        R.count({"scan": "format and text pairs", "str": "string sources", "wrap": "wrappers", "strtof": "floating texts"}[k])
        R.count("results compared", n)
        name = "%s|%s" % (fmt_text(x[0]), text(x[1])) if k == "scan" else "%s|%s" % (x[0], text(x[1])) if k == "strtof" else x[0]
        R.sample("%s %s" % (cfg, name[:80]))
        for kind, msg, w in bad:
            R.violation("%s:%s:%s" % (cfg, kind, name[:120]), w, "%s (%s)" % (msg[:300], cfg))
    R.need("format and text pairs", 1000)
    R.need("string sources", 20)
    R.need("floating texts", 100)
    R.need("wrappers", 4)
