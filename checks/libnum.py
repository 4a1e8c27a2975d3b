"""C library: text to number conversion, integer helpers, sorting and searching."""
import itertools
import terms as T, clib, par
from terms import isc, mask
from sai import AnalysisError, P, State, Forks, isfault
from clib import Buf, byt, nz, string, explore

CFILES = ["atoi.c", "atol.c", "strtol.c", "strtoul.c", "abs.c", "labs.c", "div.c", "ldiv.c", "rand.c", "srand.c", "errno.c",
          "lngadd.c", "lngsub.c", "lngeq.c", "lngltz.c", "lngsl.c", "lngul.c", "lngts.c", "lngtu.c", "lngfs.c", "lngfu.c", "qsort.c", "bsearch.c"]


# ---------------------------------------------------------------- character classes (their contract is decided by S01)
def cover(st, c, W, ranges):
    """fork a character into the given ranges and the gaps between them: [(state, inside)]"""
    cuts = []
    p = 0
    for lo, hi in ranges:
        if lo > p:
            cuts.append((p, lo - 1, 0))
        cuts.append((lo, hi, 1))
        p = hi + 1
    if p <= 255:
        cuts.append((p, 255, 0))
    lo0, hi0 = st.ival(c, W)
    live = [(max(lo, lo0), min(hi, hi0), t) for lo, hi, t in cuts if lo <= hi0 and hi >= lo0]
    if len({t for _, _, t in live}) == 1:
        return [(st, live[0][2])]
    out = []
    for lo, hi, t in live:
        s = st.fork()
        for o in st.mem.values():
            o.owner = None
        if narrow(s, c, W, lo, hi):
            out.append((s, t))
    return out


def narrow(s, c, W, lo, hi):
    if not (s.assume(T.cmp_("slt", W, c, lo), 0) and s.assume(T.cmp_("slt", W, c, hi + 1), 1)):
        return False
    if lo == hi and not s.assume(T.cmp_("eq", W, c, lo), 1):
        return False
    b = T.ext(W, c, 0, 8)
    if not isc(b):
        l, h = (lo, hi) if hi < 128 else (lo - 256, hi - 256) if lo >= 128 else (None, None)
        if l is not None:
            x = s.ivals.get(b, (-128, 127))
            s.ivals[b] = (max(l, x[0]), min(h, x[1]))
    return True


CLASSES = {"isspace": [(9, 13), (32, 32)], "isdigit": [(48, 57)], "isalpha": [(65, 90), (97, 122)], "isalnum": [(48, 57), (65, 90), (97, 122)],
           "isxdigit": [(48, 57), (65, 70), (97, 102)], "isupper": [(65, 90)], "islower": [(97, 122)]}


def ctype_hooks():
    def mk(name):
        def h(I, st, a, line):
            c = a[0]
            W = 16 if I.M.config == "small" else 32
            if isc(c):
                return int(any(lo <= T.sgn(c, W) <= hi for lo, hi in CLASSES[name]))
            r = cover(st, c, W, CLASSES[name])
            if len(r) == 1 and r[0][0] is st:
                return r[0][1]
            return Forks(r)
        return h
    d = {n: mk(n) for n in CLASSES}

    def case(lo, hi, k):
        def h(I, st, a, line):
            c = a[0]
            W = 16 if I.M.config == "small" else 32
            if isc(c):
                return c + k & mask(W) if lo <= T.sgn(c, W) <= hi else c
            r = cover(st, c, W, [(lo, hi)])
            return Forks([(s, T.add(W, c, k & mask(W)) if t else c) for s, t in r])
        return h
    d["toupper"] = case(97, 122, -32)
    d["tolower"] = case(65, 90, 32)
    return d


# ---------------------------------------------------------------- text to integer
class Tpl:
    """text of known characters, unknown digits D (0-9) and O (0-7), unknown white space S and unknown other bytes X"""

    def __init__(self, items):
        self.items = items      # one-character strings, or ("D",) ("O",) ("S",) ("X",)

    def __repr__(self):
        return "".join("<%s>" % x[0] if isinstance(x, tuple) else x for x in self.items)


RNG = {"D": [(48, 57)], "O": [(48, 55)], "S": [(9, 13), (32, 32)],
       "Y": [(1, 8), (14, 31), (33, 42), (44, 44), (47, 47), (58, 64), (91, 96), (123, 127), (128, 255)],
       "X": [(1, 8), (14, 31), (33, 42), (44, 44), (46, 47), (58, 64), (91, 96), (123, 127), (128, 255)]}


def states(M, t):
    """[(state, buffer, bytes)] with the unknowns of the template confined to their classes"""
    W = 16 if M.config == "small" else 32
    st = State(M)
    bs = []
    unk = []
    for i, x in enumerate(t.items):
        if isinstance(x, tuple):
            b = byt("t%d" % i)
            unk.append((b, RNG[x[0]]))
            bs.append(b)
        else:
            bs.append(ord(x))
    bs.append(0)
    B = Buf(st, "t", bs)
    out = [st]
    for b, rs in unk:
        nxt = []
        for s in out:
            for lo, hi in rs:
                s2 = s.fork()
                for o in s.mem.values():
                    o.owner = None
                nz(s2, b)
                for w in (16, 32):
                    narrow(s2, T.zext(8, b, w), w, lo, hi)
                nxt.append(s2)
        out = nxt
    return out, B


def parse(t, base, skipws=True):
    """C's subject sequence: (negative, digit values [int or index of an unknown digit], base, end index or None)"""
    it = t.items
    i = 0
    n = len(it)
    at = lambda k: it[k] if k < n else None
    while i < n and (it[i] == ("S",) or it[i] in tuple(" \t\n\v\f\r")):
        i += 1
    neg = False
    if at(i) in ("+", "-"):
        neg = it[i] == "-"
        i += 1

    def dig(k, b):
        x = at(k)
        if x is None:
            return None
        if isinstance(x, tuple):
            if x[0] == "D":
                return ("u", k) if b >= 10 else AnalysisError
            if x[0] == "O":
                return ("u", k) if b >= 8 else AnalysisError
            return None
        if x in "0123456789":
            v = ord(x) - 48
        elif x.isascii() and x.isalpha():
            v = ord(x.lower()) - 87
        else:
            return None
        return v if v < b else None
    if base in (0, 16) and at(i) == "0" and at(i + 1) in ("x", "X") and dig(i + 2, 16) is not None:
        base = 16
        i += 2
    elif base == 0:
        base = 8 if at(i) == "0" else 10
    ds = []
    while True:
        d = dig(i, base)
        if d is None:
            break
        if d is AnalysisError:
            raise AnalysisError("template %r in base %d" % (t, base))
        ds.append(d)
        i += 1
    return neg, ds, base, (i if ds else None)


def val(ds, base, W, B):
    """(term modulo 2**W, smallest, largest value)"""
    v, lo, hi = 0, 0, 0
    for d in ds:
        if isc(d):
            v, lo, hi = T.add(W, T.mul(W, v, base), d), lo * base + d, hi * base + d
        else:
            x = T.sub(W, T.zext(8, B.init[d[1]], W), 48)
            v, lo, hi = T.add(W, T.mul(W, v, base), x), lo * base, hi * base + 9
    return v, lo, hi


def run_conv(M, fn, t, base, endp, maxov=None):
    """-> violations, compared"""
    W = 16 if M.config == "small" else 32
    sts, B = states(M, t)
    bad = []
    n = 0
    for st in sts:
        end = st.newobj("end", W // 8)
        st.store(end, W // 8, 0x5a5a)
        st.gset("errno", 0x77, W // 8) if "errno" in M.globals else None
        I = clib.interp(M, ctype_hooks())
        args = [B.at(0)] + ([end if endp else 0, base & mask(W)] if fn.startswith("strto") else [])
        try:
            res = I.run(st, fn, args)
        except AnalysisError as e:
            if not isfault(e):
                raise
            bad.append(("fault", "%s(\"%r\", base %d): %s" % (fn, t, base, e)))
            continue
        neg, ds, b, e = parse(t, base if fn.startswith("strto") else 10)
        v, lo, hi = val(ds, b, W, B)
        lim = (1 << W) - 1 if fn == "strtoul" else (1 << (W - 1)) - 1 + int(neg)
        ov = lo > lim
        if not ov and hi > lim:
            raise AnalysisError("template %r in base %d may or may not overflow" % (t, base))
        if ov and not fn.startswith("strto"):
            continue        # no value is prescribed
        want = T.neg(W, v) if neg else v
        if ov:
            want = (1 << W) - 1 if fn == "strtoul" else lim & mask(W)
        for r in res:
            n += 1
            what = "%s(\"%r\"%s)" % (fn, t, ", base %d" % base if fn.startswith("strto") else "")
            if not same(r, r.ret, want, W):
                bad.append(("value", "%s yields %s instead of %s" % (what, r.ret, want)))
            if fn.startswith("strto"):
                en = r.gget("errno", W // 8)
                if en != (34 if ov else 0x77):
                    bad.append(("errno", "%s leaves errno %s instead of %s" % (what, en, "ERANGE" if ov else "unchanged")))
                g = r.load(end, W // 8)
                ex = 0x5a5a if not endp else B.at(e if e is not None else 0)
                if isinstance(g, T.Term):
                    g = clib.i2p(M, g)
                if g != ex:
                    bad.append(("end", "%s stores the end %s instead of %s" % (what, g, ex)))
            if any(not same(r, x, y, 8) for x, y in zip(B.bytes(r), B.init)):
                bad.append(("memory", "%s modifies its text" % what))
    return [(k, m, clib.whereis(M, fn)) for k, m in bad[:3]], n


def same(st, a, b, w):
    if isinstance(a, P) or isinstance(b, P):
        return a == b
    if isc(a) and isc(b):
        return a & mask(w) == b & mask(w)
    if a is b:
        return True
    a, b = subk(st, a), subk(st, b)
    return a is b or (isc(a) and isc(b) and a & mask(w) == b & mask(w)) or st.decide(T.cmp_("eq", w, a, b)) == 1 or T.agree(a, b, st.facts.items())


def subk(st, v):
    return v if isc(v) or not st.eqs else T.subst(v, st.eqs)


def tpl(s):
    """<D> <S> <X> <O> are unknowns"""
    out = []
    i = 0
    while i < len(s):
        if s[i] == "<" and i + 2 < len(s) and s[i + 2] == ">" and s[i + 1] in RNG:
            out.append((s[i + 1],))
            i += 3
        else:
            out.append(s[i])
            i += 1
    return Tpl(out)


def digits(v, b):
    s = ""
    while True:
        s = "0123456789abcdefghijklmnopqrstuvwxyz"[v % b] + s
        v //= b
        if not v:
            return s


def conv_items(W, deep):
    """(function, template, base, endptr)"""
    out = []
    shapes = ["", "<D>", "<D><D>", "<D><D><D>", "-<D><D>", "+<D>", "<S><D>", "<S><S>-<D><D>", "<D><X><D>", "<X><D>", "-<X>", "+-<D>", "-+<D>", "- <D>", "<S>", "<S>+<S><D>", "00<D>", "<D><S>", "+", "-", "<D>-", "<D>.<D>"]
    fns = (["strtol", "strtoul"] if W == 32 else [])
    big = (1 << W) - 1
    half = (1 << (W - 1)) - 1
    nd = len(str(big)) - 1
    shapes += ["<D>" * nd if int("9" * nd) <= half else "<D>" * (nd - 1), "-" + "<D>" * (nd - 1)]
    atoiish = ["atoi"] + (["atol"] if W == 32 else [])
    for s in shapes + ["%d" % half, "%d" % (half - 1), "-%d" % half, "-%d" % (half + 1), "%d" % (half // 10), "000000000000%d" % half]:
        for f in atoiish:
            out.append((f, s, 10, 0))
    for f in fns:
        for s in shapes:
            for b in ((10,) if s.count("<D>") > 5 else (10, 16, 36)) + ((0,) if not s.startswith("00") and not (s and "<D>" in s) else ()):
                out.append((f, s, b, 1))
            out.append((f, s, 10, 0))
        for b in (8, 0):
            for s in ("0", "0<O>", "0<O><O>8", "09", "-0<O>", "0<X>", "<S>+0<O><O><O>9"):
                out.append((f, s, b, 1))
        for x in "xX":
            for p in ("", "-", "+", "<S>-"):
                for q in ("", "<D>", "a<D>", "F", "g", "<X>", "G<D>", "x<D>", "<D>g", "0x<D>", " <D>", "-<D>"):
                    for b in (0, 16):
                        out.append((f, p + "0" + x + q, b, 1))
                out.append((f, p + "0" + x + "<D>", 10, 1))
                out.append((f, p + "0" + x + "<D>", 36, 1))
        for c in range(1, 256):
            for b in ((0, 10, 16, 36) if not deep else (0, 2, 8, 10, 11, 16, 35, 36)):
                out.append((f, chr(c), b, 1))
                if chr(c) not in "xX" or b not in (0, 16):
                    out.append((f, "1" + chr(c), b, 1))
        for b in range(2, 37):
            for lim in (half, half + 1, big):
                for d in range(-2, 3) if deep or b in (2, 3, 8, 10, 16, 36) else (-1, 0, 1):
                    for sg in ("", "-", "+"):
                        out.append((f, sg + digits(lim + d, b), b, 1))
            # just below, at and above the point where multiplying overflows, all last digits
            q = big // b
            for qq in (q - 1, q, q + 1):
                for l in range(b) if deep else sorted({0, 1, b // 2, b - 1, big % b, (big % b + 1) % b}):
                    out.append((f, digits(qq, b) + digits(l, b), b, 1))
            out.append((f, "1" * 40, b, 1))
            out.append((f, "-" + digits(b - 1, b) * 40, b, 1))
            out.append((f, digits(b - 1, b).upper() + digits(b, 36) + "1" if b < 36 else "Zz", b, 1))
        # values that overflow several times, and that come back to a small value modulo 2^W
        for k in (1, 2, 3, 10):
            for d in (-1, 0, 1, 5):
                out.append((f, digits((k << W) + d, 10), 10, 1))
                out.append((f, digits((k << W) + d, 16), 16, 1))
    return out


# ---------------------------------------------------------------- small functions
def grid(W):
    k = 1 << (W - 1)
    return sorted({0, 1, 2, 3, 9, 10, 255, 256, k - 2, k - 1, k, k + 1, 2 * k - 2, 2 * k - 1, 0x7f, 0x80, 1234, 2 * k - 1234})


def small_items(W):
    out = [("abs",), ("div",)] + ([("labs",), ("ldiv",)] if W == 32 else []) + [("rand",)]
    out += [(f,) for f in ("__lngAdd", "__lngSub", "__lngEq", "__lngUnsignedLess", "__lngSignedLess", "__lngLessThan0",
                           "__lngToSigned", "__lngToUnsigned", "__lngFromSigned", "__lngFromUnsigned")]
    return out


def run_small(M, fn):
    W = 16 if M.config == "small" else 32
    I = clib.interp(M)
    bad = []
    n = 0
    if fn in ("abs", "labs"):
        st = State(M)
        x = T.sym("x", W)
        for r in I.run(st, fn, [x]):
            n += 1
            neg = r.decide(T.cmp_("slt", W, x, 0))
            if neg is None:
                for v in grid(W):
                    if T.subst(r.ret, {x: v}) != abs(T.sgn(v, W)) & mask(W) and v != 1 << (W - 1):
                        bad.append(("value", "%s(%d) yields %s" % (fn, T.sgn(v, W), T.subst(r.ret, {x: v}))))
            elif not same(r, r.ret, T.neg(W, x) if neg else x, W):
                if r.decide(T.cmp_("eq", W, x, 0)) != 1 or subk(r, r.ret) != 0:
                    bad.append(("value", "%s of a %s number yields %s" % (fn, "negative" if neg else "positive", r.ret)))
    elif fn in ("div", "ldiv"):
        st = State(M)
        x, y = T.sym("x", W), T.sym("y", W)
        st.assume(T.cmp_("eq", W, y, 0), 0)
        ret = st.newobj("ret", 2 * W // 8)
        f = M.func(fn)
        args = [ret, x, y] if len(f.params) == 3 else [x, y]
        for r in I.run(st, fn, args):
            n += 1
            if len(f.params) == 3:
                q, m = r.load(ret, W // 8), r.load(P(ret.obj, W // 8), W // 8)
            else:
                v = r.ret
                q, m = T.ext(2 * W, v, 0, W), T.ext(2 * W, v, W, W)
            for g, e, w in ((q, T.sdiv(W, x, y), "quotient"), (m, T.srem(W, x, y), "remainder")):
                if not same(r, g, e, W):
                    # another way of computing it: decided on the boundary values
                    for a, b in itertools.product(grid(W), repeat=2):
                        if b == 0 or (a == 1 << (W - 1) and b == mask(W)):
                            continue
                        h = T.subst(g, {x: a, y: b})
                        if not isc(h):
                            raise AnalysisError("%s: cannot evaluate %s" % (fn, g))
                        if h != T.subst(e, {x: a, y: b}):
                            bad.append(("value", "%s(%d, %d) yields the %s %d" % (fn, T.sgn(a, W), T.sgn(b, W), w, T.sgn(h, W))))
                            break
    elif fn == "rand":
        # the same seed gives the same sequence, in 0..RAND_MAX; seed 1 is the default
        seqs = []
        for sd in (None, 1, 2, 77):
            st = State(M)
            seq = []
            if sd is not None:
                st = I.run(st, "srand", [sd])[0]
            for _ in range(40):
                st.status = None
                rs = I.run(st, "rand", []) if M.config != "small" else None
                if rs is None:
                    return [], 0
                st = rs[0]
                if not isc(st.ret) or not 0 <= st.ret <= 0x7fff:
                    bad.append(("range", "rand yields %s, which is not in 0..RAND_MAX" % (st.ret,)))
                seq.append(st.ret)
                n += 1
            seqs.append(seq)
        if seqs[0] != seqs[1]:
            bad.append(("seed", "rand does not start as after srand(1)"))
        if seqs[1] == seqs[2] or len(set(seqs[1])) < 30:
            bad.append(("seed", "srand does not change the sequence of rand"))
        for _ in (0,):
            st = State(M)
            st = I.run(st, "srand", [T.sym("seed", W)])[0]
            st.status = None
            r = I.run(st, "rand", [])
            n += 1
            for x in r:
                if x.ival(x.ret, W)[0] < 0 and T.and_(W, x.ret, 0x7fff) is not x.ret:
                    bad.append(("range", "rand may leave 0..RAND_MAX"))
    else:
        h = [0, 1, 2, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff]
        if fn in ("__lngToSigned", "__lngToUnsigned", "__lngLessThan0"):
            st = State(M)
            B = Buf(st, "l", [byt("l%d" % i) for i in range(4)])
            full = T.cat([(b, 8) for b in reversed(B.init)])
            for r in I.run(st, fn, [B.at(0)]):
                n += 1
                if fn == "__lngLessThan0":
                    want = r.decide(T.cmp_("slt", 32, full, 0))
                    for a in h:
                        hi = T.cat([(B.init[3], 8), (B.init[2], 8)])
                        if r.facts.get(T.cmp_("eq", 16, hi, a)) == 0:
                            continue
                        g = T.subst(r.ret, {B.init[3]: a >> 8, B.init[2]: a & 255}) if not isc(r.ret) else r.ret
                        conds = [T.subst(c, {B.init[3]: a >> 8, B.init[2]: a & 255}) == v for c, v in r.facts.items()]
                        if all(conds) and isc(g) and bool(g) != (a >= 0x8000):
                            bad.append(("value", "%s yields %s for the high half 0x%x" % (fn, g, a)))
                else:
                    e = T.ext(32, full, 0, W) if W < 32 else full
                    if not same(r, r.ret, e, W):
                        bad.append(("value", "%s yields %s instead of %s" % (fn, r.ret, e)))
        elif fn in ("__lngFromSigned", "__lngFromUnsigned"):
            for v in grid(W):
                st = State(M)
                B = Buf(st, "l", [], 4)
                for r in I.run(st, fn, [B.at(0), v]):
                    n += 1
                    g = r.load(B.at(0), 4)
                    e = (T.sgn(v, W) if fn == "__lngFromSigned" else v) & mask(32)
                    if g != e:
                        bad.append(("value", "%s(%d) stores %s instead of 0x%x" % (fn, v, g, e)))
        else:
            for a1, a0, b1, b0 in itertools.product([0, 1, 0x7fff, 0x8000, 0xffff], h, [0, 1, 0x7fff, 0x8000, 0xffff], h):
                st = State(M)
                A, B = Buf(st, "a", [a0 & 255, a0 >> 8, a1 & 255, a1 >> 8]), Buf(st, "b", [b0 & 255, b0 >> 8, b1 & 255, b1 >> 8])
                r = I.run(st, fn, [A.at(0), B.at(0)])[0]
                n += 1
                x, y = a1 << 16 | a0, b1 << 16 | b0
                g = r.load(A.at(0), 4)
                e = {"__lngAdd": x + y, "__lngSub": x - y}.get(fn, x) & mask(32)
                if g != e or r.load(B.at(0), 4) != y:
                    bad.append(("value", "%s(0x%x, 0x%x) leaves %s" % (fn, x, y, g)))
                    break
                t = {"__lngEq": x == y, "__lngUnsignedLess": x < y, "__lngSignedLess": T.sgn(x, 32) < T.sgn(y, 32)}.get(fn)
                if t is not None and bool(r.ret) != t:
                    bad.append(("value", "%s(0x%x, 0x%x) yields %s" % (fn, x, y, r.ret)))
                    break
    return [(k, m, clib.whereis(M, fn)) for k, m in bad[:3]], n


def numbers(R):
    deep = R.thorough
    R.rule("Abstract interpretation of the conversion and arithmetic functions over texts with unknown digits, separators and white space (every limit of every base "
           "enumerated): value, end pointer and errno are compared with C's definition on every path; character classes enter by their contract (S01).")
    R.files = ()
    items = []
    for cfg, names in clib.variants(CFILES):
        M = clib.load(cfg, CFILES)
        W = 16 if cfg == "small" else 32
        R.count("library variants")
        for f, s, b, e in conv_items(W, deep):
            items.append((cfg, "conv", (f, s, b, e)))
        for (f,) in small_items(W):
            items.append((cfg, "small", f))

    def work(i):
        cfg, k, x = items[i]
        M = clib.load(cfg, CFILES)
        if k == "conv":
            return x[0], run_conv(M, x[0], tpl(x[1]), x[2], x[3])
        return x, run_small(M, x)
    for (cfg, k, x), (fn, (bad, n)) in zip(items, par.pmap(work, range(len(items)), chunk=16)):
        R.count("texts" if k == "conv" else "functions")
        R.count("results compared", n)
        R.sample("%s %s" % (cfg, x))
        for kind, msg, w in bad:
            R.violation("%s:%s:%s:%s" % (cfg, fn, kind, x if k != "conv" else "%s:%d" % (x[1], x[2])), w, "%s (%s)" % (msg, cfg))
    R.need("texts", 2000)
    R.need("functions", 20)


# ---------------------------------------------------------------- sorting and searching
class Order:
    """what is known about the order of the elements: rel[i][j] in '<=>' or None, transitively closed"""

    def __init__(self, n):
        self.n = n
        self.r = tuple(tuple("=" if i == j else None for j in range(n)) for i in range(n))

    def get(self, i, j):
        return self.r[i][j]

    def put(self, i, j, c):
        """the order with i c j added, or None"""
        r = [list(x) for x in self.r]
        work = [(i, j, c), (j, i, {"<": ">", ">": "<", "=": "="}[c])]
        while work:
            a, b, x = work.pop()
            if r[a][b] is not None:
                if r[a][b] != x:
                    return None
                continue
            r[a][b] = x
            inv = {"<": ">", ">": "<", "=": "="}
            if r[b][a] is None:
                work.append((b, a, inv[x]))
            elif r[b][a] != inv[x]:
                return None
            for k in range(self.n):
                for p, q, z, y in ((a, k, x, r[b][k]),):
                    if y is not None and k != a:
                        t = comb(z, y)
                        if t and r[p][q] != t:
                            work.append((p, q, t))
                y = r[k][a]
                if y is not None and k != b:
                    t = comb(y, x)
                    if t and r[k][b] != t:
                        work.append((k, b, t))
        o = Order.__new__(Order)
        o.n = self.n
        o.r = tuple(tuple(x) for x in r)
        return o


def comb(x, y):
    if x == "=":
        return y
    if y == "=" or x == y:
        return x
    return None


def sort_one(M, n, es):
    W = 16 if M.config == "small" else 32
    st = State(M)
    # an element: its identity in the first byte, unknown payload behind
    data = []
    for i in range(n):
        data += [i + 1] + [byt("p%d.%d" % (i, k)) for k in range(1, es)]
    B = Buf(st, "a", [byt("front")] + data + [byt("back")])
    st.user = dict(st.user, order=Order(n))
    bad = []

    def ident(s, p):
        if not isinstance(p, P) or p.obj != B.p.obj or not isc(p.off) or (p.off - 1) % es or not 0 <= (p.off - 1) // es < n:
            raise AnalysisError("out of bounds element %s passed to the comparison function" % (p,))
        v = s.load(p, 1)
        if not isc(v) or not 1 <= v <= n:
            raise AnalysisError("out of bounds: a broken element is compared")
        return v - 1

    def cmpf(I, s, a, line):
        i, j = ident(s, a[0]), ident(s, a[1])
        o = s.user["order"]
        r = o.get(i, j)
        if r is not None:
            return {"<": mask(W), "=": 0, ">": 1}[r] if (i + j) % 2 else {"<": -300 & mask(W), "=": 0, ">": 300}[r]
        out = []
        for c in "<=>":
            o2 = o.put(i, j, c)
            if o2 is None:
                continue
            s2 = s.fork()
            for x in s.mem.values():
                x.owner = None
            s2.user = dict(s2.user, order=o2)
            out.append((s2, {"<": mask(W), "=": 0, ">": 1}[c] if (i + j) % 2 else {"<": -300 & mask(W), "=": 0, ">": 300}[c]))
        return Forks(out)
    I = clib.interp(M, {"cmpf": cmpf}, maxstates=2000000)
    from sai import F
    try:
        res = I.run(st, "qsort", [B.at(1), n, es, F("cmpf")])
    except AnalysisError as e:
        if not isfault(e):
            raise
        return [("fault", "qsort of %d elements of %d bytes: %s" % (n, es, e), clib.whereis(M, "qsort"))], 1
    for r in res:
        bs = B.bytes(r)
        o = r.user["order"]
        ids = [bs[1 + k * es] for k in range(n)]
        if sorted(x for x in ids if isc(x)) != list(range(1, n + 1)) or any(bs[1 + k * es + d] is not B.init[1 + (ids[k] - 1) * es + d] for k in range(n) for d in range(1, es)) or \
                bs[0] is not B.init[0] or bs[-1] is not B.init[-1]:
            bad.append(("elements", "qsort of %d elements of %d bytes loses or damages elements" % (n, es), clib.whereis(M, "qsort")))
            break
        if any(o.get(ids[k] - 1, ids[k + 1] - 1) not in ("<", "=") for k in range(n - 1)):
            bad.append(("order", "qsort of %d elements of %d bytes leaves them unsorted" % (n, es), clib.whereis(M, "qsort")))
            break
    return bad, len(res)


def sort_keys(M, n, keys):
    """larger arrays with given keys"""
    W = 16 if M.config == "small" else 32
    st = State(M)
    B = Buf(st, "a", [x for k in keys for x in (k, byt("p%d" % k))])

    def cmpf(I, s, a, line):
        x, y = s.load(a[0], 1), s.load(a[1], 1)
        return (x > y) - (x < y) & mask(W)
    from sai import F
    I = clib.interp(M, {"cmpf": cmpf})
    try:
        r = I.run(st, "qsort", [B.at(0), n, 2, F("cmpf")])[0]
    except AnalysisError as e:
        if not isfault(e):
            raise
        return [("fault", "qsort of %s: %s" % (keys, e), clib.whereis(M, "qsort"))], 1
    if r.load(B.at(0), 1) is None or [r.load(B.at(2 * i), 1) for i in range(n)] != sorted(keys):
        return [("order", "qsort of the keys %s leaves them as %s" % (keys, [r.load(B.at(2 * i), 1) for i in range(n)]), clib.whereis(M, "qsort"))], 1
    return [], 1


def search_one(M, n, es):
    W = 16 if M.config == "small" else 32
    st = State(M)
    B = Buf(st, "a", [], n * es)
    K = Buf(st, "k", [], 2)
    st.user = dict(st.user, lo=-1, hi=n, eqs=())     # key > elements up to lo, key < elements from hi
    bad = []

    def cmpf(I, s, a, line):
        if a[0] != K.at(0):
            raise AnalysisError("out of bounds: the first argument of the comparison function is not the key")
        p = a[1]
        if not isinstance(p, P) or p.obj != B.p.obj or not isc(p.off) or p.off % es or not 0 <= p.off // es < n:
            raise AnalysisError("out of bounds element %s passed to the comparison function" % (p,))
        i = p.off // es
        if i <= s.user["lo"]:
            return 7
        if i >= s.user["hi"]:
            return -7 & mask(W)
        if i in s.user["eqs"]:
            return 0
        out = []
        for c in (-1, 0, 1):
            e = s.user["eqs"]
            if c < 0 and e and i < max(e) or c > 0 and e and i > min(e):
                continue
            s2 = s.fork()
            for x in s.mem.values():
                x.owner = None
            s2.user = dict(s2.user)
            if c < 0:
                s2.user["hi"] = i
            elif c > 0:
                s2.user["lo"] = i
            else:
                s2.user["eqs"] = e + (i,)
            out.append((s2, c * 300 & mask(W)))
        return Forks(out)
    from sai import F
    I = clib.interp(M, {"cmpf": cmpf})
    try:
        res = I.run(st, "bsearch", [K.at(0), B.at(0), n, es, F("cmpf")])
    except AnalysisError as e:
        if not isfault(e):
            raise
        return [("fault", "bsearch in %d elements of %d bytes: %s" % (n, es, e), clib.whereis(M, "bsearch"))], 1
    for r in res:
        v = r.ret
        if isc(v) and v == 0:
            if r.user["hi"] - r.user["lo"] > 1:
                bad.append(("missed", "bsearch in %d elements gives up with elements %d..%d not excluded" % (n, r.user["lo"] + 1, r.user["hi"] - 1), clib.whereis(M, "bsearch")))
        elif not isinstance(v, P) or v.obj != B.p.obj or not isc(v.off) or v.off % es or v.off // es not in r.user["eqs"]:
            bad.append(("found", "bsearch in %d elements returns %s, which was not found equal" % (n, v), clib.whereis(M, "bsearch")))
    return bad[:2], len(res)


def sorting(R):
    deep = R.thorough
    R.rule("Abstract interpretation of qsort and bsearch with a comparison function about which only consistency is known: every outcome of every comparison that a total "
           "preorder allows is followed; at the end the established order must imply a sorted permutation with intact elements, or the search result.")
    R.files = ()
    files = ["qsort.c", "bsearch.c"]
    items = []
    for cfg, names in clib.variants(files):
        clib.load(cfg, files)
        for n in range(0, 7 if deep else 6):
            for es in (1, 2, 3, 4, 5, 8) if n <= 4 else (1, 3):
                items.append((cfg, "sort", n, es))
        for n in range(0, 13 if deep else 9):
            for es in (1, 2, 4, 7):
                items.append((cfg, "search", n, es))
        for n in range(6, 12 if deep else 10):
            for m in range(1 << n):
                if not deep and n == 9 and m % 3:
                    continue
                items.append((cfg, "keys", n, [1 + (m >> i & 1) for i in range(n)]))
        for n in (7, 8, 15, 16, 17):
            for f in (lambda i: i + 1, lambda i: n - i, lambda i: (i * 5 + 3) % n + 1, lambda i: (i * 7) % n + 1, lambda i: min(i, n - i) + 1, lambda i: abs(n - 2 * i) + 1):
                items.append((cfg, "keys", n, [f(i) for i in range(n)]))

    def work(i):
        cfg, k, n, x = items[i]
        M = clib.load(cfg, files)
        return {"sort": sort_one, "search": search_one, "keys": sort_keys}[k](M, n, x)
    for (cfg, k, n, x), (bad, c) in zip(items, par.pmap(work, range(len(items)), chunk=8)):
        R.count({"sort": "sorted arrays with unknown order", "search": "searched arrays", "keys": "arrays with known keys"}[k])
        R.count("outcomes", c)
        R.sample("%s %s %s %s" % (cfg, k, n, x))
        for kind, msg, w in bad:
            R.violation("%s:%s:%s:%d" % (cfg, k, kind, n), w, "%s (%s)" % (msg, cfg))
    R.need("sorted arrays with unknown order", 20)
    R.need("searched arrays", 30)
