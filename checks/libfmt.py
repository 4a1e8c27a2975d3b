"""C library: formatted output."""
import itertools
import terms as T, clib, par
from terms import isc, mask
from sai import AnalysisError, P, F, State, Forks, isfault
from clib import Buf, byt, nz, string, explore
from libnum import narrow, cover, subk

FILES = ["doprint.c", "ctype.c", "isdigit.c", "isupper.c", "toupper.c", "tolower.c", "strchr.c", "strlen.c", "strcpy.c"]
SFILES = FILES + ["vsnprint.c", "vsprintf.c", "snprintf.c", "sprintf.c", "fputc.c", "flushbuf.c", "fflush.c"]
WFILES = FILES + ["printf.c", "fprintf.c", "vprintf.c", "vfprintf.c", "stdout.c"]


class D:
    """a conversion specification"""

    def __init__(self, conv, flags="", width=None, prec=None, mod=""):
        self.conv, self.flags, self.width, self.prec, self.mod = conv, flags, width, prec, mod

    def text(self):
        f = lambda x: "*" if isinstance(x, tuple) else str(x)
        return "%" + self.flags + ("" if self.width is None else f(self.width)) + \
            ("" if self.prec is None else "." + f(self.prec) if self.prec != "" else ".") + self.mod + self.conv

    def stars(self):
        return [x[0] for x in (self.width, self.prec) if isinstance(x, tuple)]

    def resolve(self):
        """(left, sign, alt, zero, width, precision or None)"""
        fl = self.flags
        w = self.width[0] if isinstance(self.width, tuple) else self.width
        p = self.prec[0] if isinstance(self.prec, tuple) else 0 if self.prec == "" else self.prec
        left = "-" in fl
        if w is not None and w < 0:
            left, w = True, -w
        if p is not None and p < 0:
            p = None
        return left, "+" if "+" in fl else " " if " " in fl else "", "#" in fl, "0" in fl and not left, w or 0, p


def sb(s):
    return [ord(c) for c in s]


def pad(body, width, left, fill=32):
    n = max(0, width - len(body))
    return body + [32] * n if left else [fill] * n + body


def convert(v, mod, signed, W):
    """the value after the length modifier, W bits"""
    w = {"hh": 8, "h": 16}.get(mod, W)
    if w < W:
        v = T.trunc(W, v, w)
        v = T.sext(w, v, W) if signed else T.zext(w, v, W)
    return v


def int_spec(ask, d, v, W):
    left, sign, alt, zero, width, prec = d.resolve()
    signed = d.conv in "di"
    base = {"o": 8, "x": 16, "X": 16, "p": 16}.get(d.conv, 10)
    v = convert(v, d.mod, signed, W)
    pre = ""
    if signed:
        if ask(T.cmp_("slt", W, v, 0)):
            v, pre = T.neg(W, v), "-"
        else:
            pre = sign
    dig = []
    q = v
    iszero = ask(T.cmp_("eq", W, q, 0))
    while not (isc(q) and q == 0) and not ask(T.cmp_("eq", W, q, 0)):
        r = T.urem(W, q, base)
        dig.insert(0, ord("0123456789abcdef"[r]) if isc(r) else ("digit", r, base))
        if d.conv == "X" and isc(r):
            dig[0] = ord("0123456789ABCDEF"[r])
        elif d.conv == "X":
            dig[0] = ("DIGIT", r, base)
        q = T.udiv(W, q, base)
        if len(dig) > 40:
            raise AnalysisError("unbounded digits")
    if iszero:
        dig = []
    need = 1 if prec is None else prec
    if d.conv in "xX" and alt and not iszero:
        pre = "0" + d.conv
    dig = [48] * (need - len(dig)) + dig
    if d.conv == "o" and alt and (not dig or dig[0] != 48):
        dig = [48] + dig
    if zero and prec is None:
        dig = [48] * (width - len(dig) - len(pre)) + dig
    return pad(sb(pre) + dig, width, left)


def pyint(d, v, W):
    """the same for a known value"""
    return int_spec(lambda c: c, d, v, W)


def text(bs):
    return "".join(chr(b) if isc(b) and 32 <= b < 127 else "\\x%02x" % b if isc(b) else "?" for b in bs)


# ---------------------------------------------------------------- floating point: digits come from an abstract expansion
class Num:
    """an unsigned decimal expansion: integral digits, fraction digits, whether anything non-zero follows"""

    def __init__(self, ip, fp, rest=0):
        self.ip, self.fp, self.rest = ip, fp, rest

    def digit(self, i):
        """i >= 0: fraction digit"""
        return self.fp[i] if i < len(self.fp) else 0


INF, NAN = 0x7f800000, 0x7fc00000


def dz(ask, x):
    return x == 0 if isc(x) else ask(T.cmp_("eq", 8, x, 0))


def dbyte(x):
    return 48 + x if isc(x) else T.add(8, x, 48)


def more(ask, ds, rest):
    return bool(rest) or any(not dz(ask, x) for x in ds)


def known(ask, d):
    """the value of a digit"""
    if isc(d):
        return d
    for k in range(10):
        if ask(T.cmp_("eq", 8, d, k)):
            return k
    raise clib.Infeasible()


def round_dec(ask, num, p):
    """(integral digits, p fraction digits) rounded half to even"""
    keep = list(num.ip) + [num.digit(i) for i in range(p)]
    nxt = num.digit(p)
    tail = num.fp[p + 1:]
    up = False
    nxt = known(ask, nxt)
    gt, eq = nxt > 5, nxt == 5
    if gt:
        up = True
    elif eq:
        if more(ask, tail, num.rest):
            up = True
        else:
            keep[-1] = known(ask, keep[-1])
            up = bool(keep[-1] & 1)
    if up:
        i = len(keep) - 1
        while i >= 0:
            if (keep[i] == 9) if isc(keep[i]) else ask(T.cmp_("eq", 8, keep[i], 9)):
                keep[i] = 0
                i -= 1
            else:
                keep[i] = keep[i] + 1 if isc(keep[i]) else T.add(8, keep[i], 1)
                break
        else:
            keep.insert(0, 1)
    n = len(keep) - p
    return keep[:n], keep[n:]


def flt_spec(ask, d, num, neg):
    left, sign, alt, zero, width, prec = d.resolve()
    pre = "-" if neg else sign
    c = d.conv.lower()
    up = d.conv.isupper()
    if num in ("inf", "nan"):
        return pad(sb(pre) + sb(num.upper() if up else num), width, left)
    p = 6 if prec is None else prec

    def fixed(p):
        a, b = round_dec(ask, num, p)
        return [dbyte(x) for x in a], [dbyte(x) for x in b]

    def sci(p):
        """digits d.ddd (p fraction digits), exponent"""
        allz = True
        seq = list(num.ip) + list(num.fp)
        e = len(num.ip) - 1
        i = 0
        while i < len(seq) and dz(ask, seq[i]):
            i += 1
        if i == len(seq):
            if num.rest:
                raise AnalysisError("expansion without a leading digit")
            return [48], [48] * p, 0
        e -= i
        m = Num([seq[i]], seq[i + 1:], num.rest)
        a, b = round_dec(ask, m, p)
        if len(a) == 2:
            e += 1
            a, b = a[:1], (a[1:] + b)[:p]
        return [dbyte(x) for x in a], [dbyte(x) for x in b], e

    if c == "f":
        a, b = fixed(p)
        ex = []
    else:
        g = c == "g"
        if g:
            p = 1 if p == 0 else p
            a, b, e = sci(p - 1)
            if -4 <= e < p:
                a, b = fixed(p - 1 - e)
                ex = None
            else:
                ex = e
        else:
            a, b, ex = sci(p)
        if g and not alt:
            while b and ((b[-1] == 48) if isc(b[-1]) else ask(T.cmp_("eq", 8, b[-1], 48))):
                b.pop()
        ex = [] if ex is None else sb("%s%s%02d" % ("E" if up else "e", "-" if ex < 0 else "+", abs(ex)))
    body = a + ([46] if b or alt else []) + b + ex
    if zero:
        body = [48] * (width - len(body) - len(pre)) + body
    return pad(sb(pre) + body, width, left)


class Out:
    """hooks of one analysed call"""

    def __init__(self, M, nums, fail=None):
        self.M, self.nums, self.fail = M, nums, fail
        self.W = M.pw

    def hooks(self):
        h = {"fputc": self.fputc, "__cvtdif": self.dif, "__cvtdff": self.dff}
        return h

    def fputc(self, I, st, a, line):
        n = st.user.get("n", 0)
        st.user = dict(st.user)
        st.user["n"] = n + 1
        st.user["file"] = a[1]
        if self.fail is not None and (n == self.fail[0] if self.fail[1] else n >= self.fail[0]):
            return mask(self.W)
        b = T.trunc(self.W, a[0], 8) if not isinstance(a[0], (P, F)) else None
        st.user["out"] = st.user.get("out", ()) + (b,)
        return T.zext(8, b, self.W)

    def num(self, x):
        if not isc(x) or x not in self.nums:
            raise AnalysisError("digits of a value other than the argument's magnitude (%s)" % (x,))
        return self.nums[x]

    def dif(self, I, st, a, line):
        num, buf, size, rem = self.num(a[0]), a[1], a[2], a[3]
        k = len(num.ip)
        for i in range(min(k, size)):
            st.store(P(buf.obj, (buf.off + i) & 0xffffffff), 1, dbyte(num.ip[i]))
        rest = list(num.ip[size:]) + list(num.fp)
        out = []
        for s, m in explore(st, lambda ask: more(ask, rest, num.rest)):
            if isinstance(rem, P):
                s.store(rem, 4, int(m))
            out.append((s, k))
        return Forks(out)

    def dff(self, I, st, a, line):
        num, buf, size, zp = self.num(a[0]), a[1], a[2], a[3]

        def go(ask):
            z = 0
            ds = list(num.fp)
            if isinstance(zp, P):
                if not more(ask, ds, num.rest):
                    return 0, [], 0
                while z < len(ds) and dz(ask, ds[z]):
                    z += 1
                ds = ds[z:]
            got = (ds + [0] * size)[:size]
            return z, got, int(more(ask, ds[size:], num.rest))
        out = []
        for s, (z, got, r) in explore(st, go):
            got = got + [0] * (size - len(got))
            for i, x in enumerate(got):
                s.store(P(buf.obj, (buf.off + i) & 0xffffffff), 1, dbyte(x))
            if isinstance(zp, P):
                s.store(zp, 4, z)
            out.append((s, r))
        return Forks(out)


def tblload(st, p, n):
    """a load from a constant table at an index of known range"""
    o = st.obj(p.obj)
    off = p.off
    var, k = off, 0
    if off.op == "lin" and len(off.args[0]) == 1 and off.args[0][0][1] == 1:
        var, k = off.args[0][0][0], off.args[1]
    if var.op == "urem" and isc(var.args[1]):
        lo, hi = 0, var.args[1] - 1
    elif var.op == "cat" and var.args[0][0] == 0 and len(var.args) == 2:
        lo, hi = 0, (1 << var.args[1][1]) - 1
        if not isc(var.args[1][0]):
            a, b = st.ival(var.args[1][0], var.args[1][1])
            if 0 <= a:
                lo, hi = max(lo, a), min(hi, b)
    else:
        lo, hi = st.ival(var, var.w)
    if hi - lo > 64:
        return None
    vals = [st.load(P(p.obj, (k + i) & mask(st.M.pw)), n) for i in range(lo, hi + 1)]
    r = vals[-1]
    for i in range(len(vals) - 2, -1, -1):
        r = T.ite(n * 8, T.cmp_("eq", var.w, var, lo + i), vals[i], r)
    return r


def digit_ok(st, g, e, W):
    """emitted byte g against ('digit', term, base)"""
    tag, r, base = e
    cs = "0123456789abcdef" if tag == "digit" else "0123456789ABCDEF"
    for k in range(base):
        h = T.subst(g, {r: k}) if not isc(g) else g
        if not isc(h) or h != ord(cs[k]):
            if st.decide(T.cmp_("eq", W, r, k)) != 0:
                return False
    return True


def grid(W, base=10):
    s = set()
    for b in (2, 8, 10, 16):
        k = 1
        while k < 1 << W:
            s |= {k - 1, k, k + 1, 3 * k, 5 * k}
            k *= b
    s |= {(1 << W) - x for x in list(s)} | {0x12345678, 0x87654321, 0xdeadbeef, 0x80, 0xff, 0x7f, 0x8000, 0x7fff}
    return sorted(x & mask(W) for x in s)


def consistent(st, asg):
    ev = lambda x: x if isc(x) else T.subst(x, asg)
    for c, v in st.facts.items():
        x = ev(c)
        if isc(x) and x != v:
            return False
    for t, v in st.eqs.items():
        x, y = ev(t), ev(v)
        if isc(x) and isc(y) and x != y:
            return False
    return True


def feasible(st):
    """prune digits that have no value left; digits with one value become known"""
    if not consistent(st, st.eqs):
        return False
    for t, (lo, hi) in list(st.ivals.items()):
        if t.op != "sym" or hi - lo > 15:
            continue
        ok = [k for k in range(lo, hi + 1) if consistent(st, {**st.eqs, t: k & mask(t.w)})]
        if not ok:
            return False
        if len(ok) == 1:
            st.eqs[t] = ok[0] & mask(t.w)
    return True


class Case:
    """a format and its arguments

    args: ("i", value term), ("s", Buf data, terminated), ("n", bytes), ("f", num key, neg), ("p0",)"""

    def __init__(self, parts, args, nums=None, ranges=None):
        self.parts, self.args, self.nums, self.ranges = parts, args, nums or {}, ranges or []


def fmt_text(parts):
    return "".join(p.replace("%", "%%") if isinstance(p, str) else p.text() for p in parts)


def lay(st, W, case):
    """argument area; [(address or None)] of the arguments"""
    words = []
    objs = []
    it = iter(case.args)
    for p in case.parts:
        if isinstance(p, str):
            continue
        words += [x & mask(W) for x in p.stars()]
        a = next(it)
        if a[0] == "i":
            words.append(a[1])
            objs.append(None)
        elif a[0] == "s":
            b = Buf(st, "s%d" % len(words), a[1])
            words.append(b.at(0))
            objs.append(b)
        elif a[0] == "n":
            b = Buf(st, "n%d" % len(words), [], a[1])
            words.append(b.at(0))
            objs.append(b)
        elif a[0] == "f":
            words.append(a[1] | (0x80000000 if a[2] else 0))
            objs.append(None)
    vl = st.newobj("args", len(words) * W // 8)
    for i, w in enumerate(words):
        st.store(P(vl.obj, i * W // 8), W // 8, w)
    return vl, words, objs


def spec(ask, case, W, objs):
    """(bytes, {object index: stored count})"""
    out = []
    cnt = {}
    k = 0
    for p in case.parts:
        if isinstance(p, str):
            out += sb(p)
            continue
        a = case.args[k]
        left, sign, alt, zero, width, prec = p.resolve()
        if p.conv in "diuoxXp":
            out += int_spec(ask, p, a[1], W)
        elif p.conv == "c":
            out += pad([T.trunc(W, a[1], 8)], width, left)
        elif p.conv == "s":
            bs = []
            for b in a[1]:
                if prec is not None and len(bs) >= prec:
                    break
                if (b == 0) if isc(b) else ask(T.cmp_("eq", 8, b, 0)):
                    break
                bs.append(b)
            else:
                if prec is None:
                    raise AnalysisError("unterminated string in a case")
            out += pad(bs, width, left)
        elif p.conv == "n":
            cnt[k] = len(out)
        else:
            out += flt_spec(ask, p, case.nums.get(a[1], {INF: "inf", NAN: "nan"}.get(a[1])), a[2])
        k += 1
    return out, cnt


def begin(M, case):
    st = State(M)
    st.user = {"symload": tblload}
    W = M.pw
    for v, w, lo, hi in case.ranges:
        narrow(st, v, w, lo, hi)
    vl, words, objs = lay(st, W, case)
    ft = Buf(st, "fmt", [c & 255 for c in sb(fmt_text(case.parts))] + [0])
    return st, ft, vl, words, objs


def concrete(case, W, asg):
    """expected output for known values"""
    def ask(c):
        x = T.subst(c, asg)
        if not isc(x):
            raise AnalysisError("value left open: %s" % (x,))
        return x
    sub = lambda a: (a[0], T.subst(a[1], asg) if not isc(a[1]) else a[1]) if a[0] == "i" else a
    c2 = Case(case.parts, [sub(a) for a in case.args], case.nums)
    return spec(ask, c2, W, None)


def witness(st, case, got, ret, W):
    """(values, expected) for which the path's output is wrong"""
    vs = [a[1] for a in case.args if a[0] == "i" and not isc(a[1])]
    if len(vs) > 2:
        return None
    g = grid(W)
    for asg in itertools.product(g, repeat=len(vs)):
        asg = dict(zip(vs, asg))
        if any(not lo <= T.sgn(asg[v], w) <= hi for v, w, lo, hi in case.ranges if v in asg) or not consistent(st, asg):
            continue
        try:
            out, cnt = concrete(case, W, asg)
        except AnalysisError:
            return None
        h = [T.subst(b, asg) if not isc(b) else b for b in got]
        if len(h) == len(out) and not all(isc(x) and isc(y) for x, y in zip(h, out)):
            continue
        if h != out or (isc(ret) and T.sgn(ret, W) != len(out)):
            return asg, out
    return None


def run_case(M, case, fail=None):
    """(violations, paths, undecided)"""
    W = M.pw
    o = Out(M, case.nums, fail)
    st, ft, vl, words, objs = begin(M, case)
    I = clib.interp(M, o.hooks(), maxstates=200000)
    stream = Buf(st, "stream", [0] * 64)
    bad = []
    n = und = 0
    name = fmt_text(case.parts)
    faults = []

    def rec(s, e):
        if not isfault(e):
            return False
        faults.append((str(e), clib.where(I, s)))
        return True
    I.recover = rec
    try:
        sts = I.run(st, "__doprint", [stream.at(0), ft.at(0), vl])
    finally:
        pass
    for m, w in faults[:1]:
        bad.append(("fault", 'printing "%s": %s' % (name, m), w))
    at = clib.whereis(M, "__doprint")
    for s0 in sts:
        for s, (want, cnt) in explore(s0, lambda ask: spec(ask, case, W, objs)):
            if not feasible(s):
                continue
            n += 1
            got = list(s.user.get("out", ()))
            ret = s.ret
            if fail is not None:
                if len(want) <= fail[0]:
                    continue
                if not (isc(ret) and T.sgn(ret, W) < 0):
                    bad.append(("error", 'printing "%s": a write error at character %d is reported as %s' % (name, fail[0] + 1, ret), at))
                if len(got) > fail[0] or any(isc(x) and isc(y) and x != y for x, y in zip(got, want)):
                    bad.append(("error", 'printing "%s": wrong output before a write error' % name, at))
                continue
            ok = len(got) == len(want) and isc(ret) and T.sgn(ret, W) == len(want)
            if ok:
                for g, e in zip(got, want):
                    if isinstance(e, tuple):
                        ok = digit_ok(s, subk(s, g), e, W)
                    elif not (isc(g) and isc(e) and g == e or g is e or s.decide(T.cmp_("eq", 8, g, e)) == 1 or same8(s, g, e)):
                        ok = False
                    if not ok:
                        break
            if ok:
                f = s.user.get("file")
                if want and f != stream.at(0):
                    bad.append(("stream", 'printing "%s" writes to another stream' % name, at))
                for k, c in cnt.items():
                    b = objs[k]
                    x = s.load(b.at(0), b.size)
                    if x != c & mask(8 * b.size):
                        bad.append(("count", 'printing "%s" stores %s through %%n instead of %d' % (name, x, c), at))
                continue
            vs = [a[1] for a in case.args if a[0] == "i" and not isc(a[1])]
            w = witness(s, case, got, ret, W) if vs else ({}, want)
            if w is None:
                und += 1
                continue
            asg, exp = w
            h = [T.subst(b, asg) if not isc(b) else b for b in got]
            bad.append(("output", 'printing "%s"%s writes "%s" and returns %s instead of "%s"' % (
                name, "".join(" of %d" % T.sgn(x, W) for x in asg.values()), text(h), T.sgn(ret, W) if isc(ret) else ret, text(exp)), at))
    return bad[:2], n, und


def same8(s, g, e):
    g, e = subk(s, g), subk(s, e)
    return T.agree(g, e, s.facts.items())


# ---------------------------------------------------------------- cases
def int_cases(W, deep):
    v = T.sym("v", W)
    lim = [(v, W, -120, 120)]
    out = []
    flags = ["".join(c) for k in range(6) for c in itertools.combinations("-+ #0", k)]
    widths = [None, 1, 5, (6,), (-6,)]
    precs = [None, "", 1, 4, (3,), (-1,)]
    for conv in "diuoxX":
        for m in ("", "hh", "h") + (("l",) if W == 32 else ()) + ("j", "z", "t"):
            out.append(Case([D(conv, mod=m)], [("i", v)]))
        for fl in "-+ #0":
            out.append(Case([D(conv, fl)], [("i", v)]))
        for w in (2, 13, 40, (13,), (-13,)):
            for fl in ("", "0", "-", "#", "#0"):
                out.append(Case([D(conv, fl, w)], [("i", v)]))
        for p in ("", 0, 1, 2, 3, 10, 11, 12, 30, (12,), (-3,)):
            for fl in ("", "#", "+"):
                out.append(Case([D(conv, fl, None, p)], [("i", v)]))
        for m in ("hh", "h"):
            for fl in "+ #0":
                out.append(Case([D(conv, fl, 6, None, m)], [("i", v)]))
                out.append(Case([D(conv, fl, None, "", m)], [("i", v)]))
        for fl in flags:
            for w in widths:
                for p in precs if deep else (None, "", 4):
                    r = lim if conv in "di" else [(v, W, 0, 600)]
                    out.append(Case([D(conv, fl, w, p)], [("i", v)], ranges=r))
        for fl in ("+ ", " +", "-0", "0-", "00", "#+-0 ", "++"):
            out.append(Case([D(conv, fl, 7)], [("i", v)], ranges=lim))
    for fl in ("", "-"):
        for w in (None, 1, 5, (7,), (-7,)):
            out.append(Case([D("c", fl, w)], [("i", v)]))
            out.append(Case([D("p", fl, w)], [("i", v)]))
            for p in (None, "", 0, 1, 2, 3, 4, (2,), (-1,)):
                for n in (0, 1, 3):
                    out.append(Case([D("s", fl, w, p)], [("s", [byt("c%d" % i) for i in range(n)] + [0])]))
    # strings that need no terminator
    for k in (0, 1, 3):
        out.append(Case([D("s", "", 5, k)], [("s", [byt("c%d" % i) for i in range(k)])]))
    return out


def seq_cases(W):
    a, b = T.sym("a", W), T.sym("b", W)
    r = [(a, W, -20, 20), (b, W, 0, 20)]
    s = ("s", [65, 66, 0])
    out = [Case([""], []), Case(["%"], []), Case(["abc%def%"], []), Case(["\n\t\x80\xff"], []),
           Case(["x", D("d"), "y"], [("i", a)], ranges=r), Case([D("d"), D("u"), D("d")], [("i", a), ("i", b), ("i", 7)], ranges=r),
           Case(["[", D("s"), "|", D("d"), "|", D("c"), "]"], [s, ("i", a), ("i", 0x141)], ranges=r),
           Case([D("d", "", (4,), (2,)), ",", D("s", "-", (5,), (1,)), D("x")], [("i", a), s, ("i", b)], ranges=r),
           Case([D("x"), "%", D("o"), "%%", D("X", "#")], [("i", 255), ("i", 8), ("i", 171)])]
    for m, n in (("", W // 8), ("hh", 1), ("h", 2)) + ((("l", 4),) if W == 32 else ()) + (("j", W // 8), ("z", W // 8), ("t", W // 8)):
        out.append(Case(["ab", D("n", mod=m), "cd", D("d"), D("n", mod=m), "!"], [("n", n), ("i", 123), ("n", n)]))
        out.append(Case([D("n", mod=m), "x"], [("n", n)]))
    return out


def digits(s, tag):
    """'d' is an unknown digit, 'D' an unknown non-zero digit"""
    out, rng = [], []
    for i, c in enumerate(s):
        if c in "dD":
            x = T.sym("%s%d" % (tag, i), 8)
            rng.append((x, 8, 1 if c == "D" else 0, 9))
            out.append(x)
        else:
            out.append(int(c))
    return out, rng


def flt_cases(deep):
    out = []
    tpls = ["0.0", "1.0", "D.d", "D.dd", "D.d5", "9.d5", "9.95", "9.5", "9.996", "0.09996", "99.9996", "0.5", "1.5", "2.5", "D.5", "99.5", "99.95", "0.05", "0.25", "0.0D5", "0.000Dd",
            "0.0000D", "0.00009995", "0.000095", "0.000099999995", "999999.5", "D00000.0", "D000000.0", "Ddddddd.5", "1234567.25", "99999.95", "999999.95",
            "0.0000000D", "Ddd.ddd", "12345678901234567890.0", "100.0", "10.0", "0.1000", "100000.5", "1000000.0", "9999995.0", "9999985.0"]
    convs = "feg" if not deep else "fFeEgG"
    for t in tpls:
        for rest in (0, 1):
            if t == "0.0" and rest:
                continue
            ip, r1 = digits(t.split(".")[0], "i")
            fp, r2 = digits(t.split(".")[1], "f")
            key = 0x3f800000
            nums = {key: Num(ip, fp, rest)}
            for c in convs:
                for p in (None, "", 1, 2, 3, 5, 7, (4,), (-1,)) if deep else (None, 0, 1, 2, 3, 7):
                    for fl in ("", "#") if c in "gG" or p in ("", 0, None) else ("",):
                        out.append(Case([D(c, fl, None, p)], [("f", key, 0)], nums, r1 + r2))
    key = 0x3f800000
    for t, rest in (("0.0", 0), ("D.d", 0), ("9.96", 1), ("123.456", 0)):
        ip, r1 = digits(t.split(".")[0], "i")
        fp, r2 = digits(t.split(".")[1], "f")
        nums = {key: Num(ip, fp, rest)}
        for c in "feG":
            for fl in ("0-", "-0", "0+-", "+ ", " +", "0 -#", "-0-0"):
                for w in (3, 14):
                    out.append(Case([D(c, fl, w, 1)], [("f", key, 0)], nums, r1 + r2))
        for c in "fFeEgG":
            for k in range(6):
                for fl in itertools.combinations("-+ #0", k):
                    for w in (None, 3, 14, (14,), (-14,)):
                        for neg in (0, 1):
                            if len(fl) > 2 and (c.isupper() or neg) and not deep:
                                continue
                            out.append(Case([D(c, "".join(fl), w, 1)], [("f", key, neg)], nums, r1 + r2))
    # more digits than are kept, and precisions beyond them
    for t in ("0." + "0" * 44 + "Dd", "0." + "1" * 149, "9" * 39 + ".0", "1" * 39 + ".0"):
        ip, r1 = digits(t.split(".")[0], "i")
        fp, r2 = digits(t.split(".")[1], "f")
        for c in "feg":
            for p in (None, 0, 38, 46, 148, 149, 150, 151, 160):
                out.append(Case([D(c, "", None, p)], [("f", key, 0)], {key: Num(ip, fp, 0)}, r1 + r2))
    for k in (INF, NAN):
        for c in "fFeEgG":
            for fl in ("", "0", "+", " ", "-", "#", "-0", "+0"):
                for w in (None, 8):
                    for p in (None, 2):
                        out.append(Case([D(c, fl, w, p)], [("f", k, 0)]))
                        if k == INF:
                            out.append(Case([D(c, fl, w, p)], [("f", k, 1)]))
    a = T.sym("a", 32)
    ip, r1 = digits("D", "i")
    nums = {key: Num(ip, [5], 0), key + 1: Num([0], [2, 5], 0)}
    out.append(Case([D("d"), " ", D("f"), "|", D("g"), D("n"), D("d")], [("i", a), ("f", key, 0), ("f", key + 1, 1), ("n", 4), ("i", 5)], nums,
                    r1 + [(a, 32, -5, 5)]))
    out.append(Case([D("f", "", None, None, "l"), D("e", "", None, None, "L")], [("f", key, 0), ("f", key + 1, 1)], nums, r1))
    return out


# ---------------------------------------------------------------- destinations
def run_string(M, fn, parts, args, n, v):
    """(v)s(n)printf into a buffer of n bytes"""
    W = M.pw
    case = Case(parts, args)
    want, _ = concrete(case, W, {})
    st, ft, vl, words, objs = begin(M, case)
    bounded = "sn" in fn
    cap = n if bounded else len(want) + 1
    dst = Buf(st, "dst", [], cap + 2)
    I = clib.interp(M)
    variadic(I, words, W, ft.at(0))
    f = fn
    a = [dst.at(0)] + ([n] if bounded else []) + [ft.at(0)] + ([vl] if v else [])
    bad = []
    at = clib.whereis(M, f)
    faults = []

    def rec(s, e):
        if not isfault(e):
            return False
        faults.append((str(e), clib.where(I, s)))
        return True
    I.recover = rec
    what = '%s(%s"%s")' % (f, "%d, " % n if bounded else "", fmt_text(parts))
    sts = I.run(st, f, a)
    for m, w in faults[:1]:
        bad.append(("fault", "%s: %s" % (what, m), w))
    for s in sts:
        got = dst.bytes(s)
        if bounded:
            exp = (want[:n - 1] + [0] if n else [])
        else:
            exp = want + [0]
        for i, g in enumerate(got):
            if i < len(exp):
                if g != exp[i] and not (g is exp[i]):
                    bad.append(("memory", "%s stores %s at byte %d instead of %s" % (what, g, i, exp[i]), at))
                    break
            elif i >= cap and g is not dst.init[i]:
                bad.append(("memory", "%s writes outside the buffer" % what, at))
                break
        if not isc(s.ret) or T.sgn(s.ret, W) != len(want):
            bad.append(("result", "%s returns %s instead of %d" % (what, s.ret, len(want)), at))
    return bad[:2], len(sts)


def variadic(I, words, W, fmt):
    """arguments of a variadic function follow the parameter they are preceded by"""

    def default(st, o, off, n):
        B = W // 8
        if off % B or n != B:
            return None
        i = off // B - 1
        return words[i] if 0 <= i < len(words) else None
    I.varargs = (lambda fn, nm: fn.vararg and fn.pnames and nm.split(".")[0] == fn.pnames[-1], (len(words) + 1) * W // 8, default)


def run_wrap(M, fn, v):
    """printf, fprintf and the v forms hand everything to the formatter and return its result"""
    W = M.pw
    st = State(M)
    ft = Buf(st, "fmt", [65, 0])
    words = [11, 22, 33]
    vl = st.newobj("args", 3 * W // 8)
    for i, w in enumerate(words):
        st.store(P(vl.obj, i * W // 8), W // 8, w)
    stream = Buf(st, "stream", [0] * 64)
    R = T.sym("result", W)
    seen = []

    def dp(I, s, a, line):
        f, fm, al = a
        ok = fm == ft.at(0)
        got = []
        try:
            for i in range(3):
                got.append(s.load(P(al.obj, (al.off + i * W // 8) & mask(W)), W // 8))
        except AnalysisError as e:
            if not isfault(e):
                raise
        seen.append((f, ok, got))
        return R
    I = clib.interp(M, {"__doprint": dp})
    variadic(I, words, W, ft.at(0))
    a = ([stream.at(0)] if "f" in fn[:2] and "printf" != fn or fn == "vfprintf" else []) + [ft.at(0)] + ([vl] if v else [])
    at = clib.whereis(M, fn)
    bad = []
    for s in I.run(st, fn, a):
        if s.ret is not R:
            bad.append(("result", "%s does not return the number of characters" % fn, at))
        if len(seen) != 1:
            bad.append(("call", "%s formats %d times" % (fn, len(seen)), at))
            continue
        f, ok, got = seen[0]
        exp = stream.at(0) if a[0] == stream.at(0) else s.load(P("__stdout", 0), W // 8)
        if f != exp:
            bad.append(("stream", "%s writes to another stream" % fn, at))
        if not ok or got != words:
            bad.append(("arguments", "%s passes the format and arguments on wrongly (%s)" % (fn, got), at))
    return bad, 1


def string_items(W):
    p1 = ["ab", D("d"), "\n"]
    out = []
    for n in list(range(0, 9)) + [20]:
        for f, v in (("vsnprintf", 1), ("snprintf", 0)):
            out.append((f, p1, [("i", 1234)], n, v))
            out.append((f, [D("s", "", 5), D("c")], [("s", [65, 0]), ("i", 66)], n, v))
            out.append((f, [], [], n, v))
    for f, v in (("vsprintf", 1), ("sprintf", 0)):
        out.append((f, p1, [("i", 1234)], 0, v))
        out.append((f, [D("s", "", 5), D("c"), D("x")], [("s", [65, 0]), ("i", 66), ("i", 171)], 0, v))
        out.append((f, [], [], 0, v))
    return out


def printing(R):
    deep = R.thorough
    R.rule("Abstract interpretation of the formatter over every conversion, flag set, width, precision and length modifier listed with unknown arguments: the "
           "characters written, the result and the counts stored through %n are compared with C's definition on every path; floating values enter as abstract "
           "decimal expansions (their digit generators are taken by contract).")
    R.assume += (["__cvtdif and __cvtdff deliver the digits of the decimal expansion and whether anything non-zero follows, as documented"])
    R.files = ()
    items = []
    for cfg, names in clib.variants(SFILES + WFILES[len(FILES):]):
        W = 16 if cfg == "small" else 32
        R.count("library variants")
        cs = int_cases(W, deep) + seq_cases(W) + (flt_cases(deep) if W == 32 and (cfg == "linux" or deep) else [])
        for c in cs:
            items.append((cfg, "fmt", c, None))
        for c in seq_cases(W)[4:9] + [Case(["ab", D("d", "-", 7), D("s", "", 4)], [("i", 45), ("s", [65, 0])])]:
            for k in range(0, 14):
                for once in (0, 1):
                    items.append((cfg, "fmt", c, (k, once)))
        for x in string_items(W):
            items.append((cfg, "str", x, None))
        for f, v in (("printf", 0), ("fprintf", 0), ("vprintf", 1), ("vfprintf", 1)):
            items.append((cfg, "wrap", (f, v), None))

    def work(i):
        cfg, k, x, fail = items[i]
        if k == "fmt":
            return run_case(clib.load(cfg, FILES), x, fail)
        if k == "str":
            return run_string(clib.load(cfg, SFILES), *x) + (0,)
        return run_wrap(clib.load(cfg, WFILES), *x) + (0,)
    for c in {x[0] for x in items}:
        clib.load(c, FILES), clib.load(c, SFILES), clib.load(c, WFILES)
    for (cfg, k, x, fail), (bad, n, und) in zip(items, par.pmap(work, range(len(items)), chunk=16)):
        R.count({"fmt": "formats", "str": "string destinations", "wrap": "wrappers"}[k])
        R.count("results compared", n)
        R.count("results left undecided", und)
        name = fmt_text(x.parts) if k == "fmt" else x[0]
        R.sample("%s %s" % (cfg, name))
        for kind, msg, w in bad:
            R.violation("%s:%s:%s" % (cfg, kind, name), w, "%s (%s)" % (msg, cfg))
    R.need("formats", 2000)
    R.need("string destinations", 60)
    R.need("wrappers", 4)
