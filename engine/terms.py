"""Herbrand (value-numbering) terms over fixed-width bit vectors.

A value is a Python int (already reduced modulo 2**w) or an interned Term.
All constructors normalise, so two values are the same value number exactly
when they are the same Python object / equal int.
"""
_tab = {}
_cnt = 0


class Term:
    __slots__ = ("op", "w", "args", "n")

    def __repr__(self):
        return show(self)


def mk(op, w, *args):
    global _cnt
    key = (op, w) + args
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.w = w
        t.args = args
        _cnt += 1
        t.n = _cnt
        _tab[key] = t
    return t


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v


def sym(name, w):
    return mk("sym", w, name)


def fn(name, w, *args):
    return mk("fn", w, name, *args)


def isc(v):
    return v.__class__ is int


def _key(a):
    return (0, a) if isc(a) else (1, a.n)


# ---- linear combinations
def _lin(w, v):
    if isc(v):
        return {}, v & mask(w)
    if v.op == "lin":
        return dict(v.args[0]), v.args[1]
    return {v: 1}, 0


def _mklin(w, d, c):
    m = mask(w)
    d = {a: k & m for a, k in d.items() if k & m}
    c &= m
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    if w == 1 and c and len(d) == 1:
        return lnot(next(iter(d)))
    return mk("lin", w, tuple(sorted(d.items(), key=lambda x: x[0].n)), c)


def _parts(w, v):
    """list of (value, width) from high to low"""
    if not isc(v) and v.op == "cat":
        return list(v.args)
    return [(v, w)]


def _split(w, v, cuts):
    """pieces of v between sorted cut positions (low to high)"""
    return [ext(w, v, lo, hi - lo) for lo, hi in zip(cuts, cuts[1:])]


def _cuts(w, v):
    r = {0, w}
    if not isc(v) and v.op == "cat":
        p = w
        for _, pw in v.args:
            r.add(p)
            p -= pw
    elif isc(v):
        prev = None
        for i in range(w):
            b = (v >> i) & 1
            if b != prev:
                r.add(i)
            prev = b
    return r


def add(w, a, b):
    if isc(a) and isc(b):
        return (a + b) & mask(w)
    # disjoint bit fields
    if (not isc(a) and a.op == "cat") or (not isc(b) and b.op == "cat"):
        ca = not isc(a) and a.op == "cat"
        cb = not isc(b) and b.op == "cat"
        if (ca or isc(a)) and (cb or isc(b)):
            cuts = sorted(_cuts(w, a) | _cuts(w, b))
            pa = _split(w, a, cuts)
            pb = _split(w, b, cuts)
            if all(x == 0 or y == 0 for x, y in zip(pa, pb)):
                return cat([((x if y == 0 else y), hi - lo) for x, y, lo, hi in
                            reversed(list(zip(pa, pb, cuts, cuts[1:])))])
    da, ca_ = _lin(w, a)
    db, cb_ = _lin(w, b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + v
    return _mklin(w, da, ca_ + cb_)


def neg(w, a):
    return mulc(w, a, mask(w))


def mulc(w, a, k):
    if isc(a):
        return (a * k) & mask(w)
    k &= mask(w)
    if k == 0:
        return 0
    if k == 1:
        return a
    d, c = _lin(w, a)
    return _mklin(w, {t: x * k for t, x in d.items()}, c * k)


def sub(w, a, b):
    return add(w, a, neg(w, b))


def mul(w, a, b):
    if isc(a):
        return mulc(w, b, a)
    if isc(b):
        return mulc(w, a, b)
    if a.n > b.n:
        a, b = b, a
    return mk("mul", w, a, b)


def _known_nonneg(w, a):
    if isc(a):
        return not (a >> (w - 1))
    if a.op == "cat":
        p, pw = a.args[0]
        return _known_nonneg(pw, p) if not (p == 0) else True
    if a.op == "cmp" or a.op == "not":
        return False
    return False


def udiv(w, a, b):
    if isc(a) and isc(b) and b:
        return a // b
    if isc(b) and b == 1:
        return a
    if isc(b) and b and not isc(a) and a.op == "udiv" and isc(a.args[1]):
        b *= a.args[1]
        if b >> w:
            return 0
        a = a.args[0]
    return mk("udiv", w, a, b)


def urem(w, a, b):
    if isc(a) and isc(b) and b:
        return a % b
    return mk("urem", w, a, b)


def sdiv(w, a, b):
    if isc(a) and isc(b) and b:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    if isc(b) and b == 1:
        return a
    return mk("sdiv", w, a, b)


def srem(w, a, b):
    if isc(a) and isc(b) and b:
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & mask(w)
    return mk("srem", w, a, b)


def cat(parts):
    """parts: list of (value,width), high to low"""
    out = []
    for v, pw in parts:
        if pw == 0:
            continue
        if not isc(v) and v.op == "cat":
            sub_ = v.args
        else:
            sub_ = ((v, pw),)
        for v2, w2 in sub_:
            if out:
                pv, pvw = out[-1]
                if isc(pv) and isc(v2):
                    out[-1] = ((pv << w2) | v2, pvw + w2)
                    continue
                # adjacent extracts of the same term
                if not isc(pv) and not isc(v2):
                    t1, lo1 = (pv.args[0], pv.args[1]) if pv.op == "ext" else (pv, 0)
                    t2, lo2 = (v2.args[0], v2.args[1]) if v2.op == "ext" else (v2, 0)
                    if t1 is t2 and lo1 == lo2 + w2:
                        out[-1] = (ext(t1.w, t1, lo2, pvw + w2), pvw + w2)
                        continue
                    if pv.op == "ext" and lo1 >= w2 and ext(t1.w, t1, lo1 - w2, w2) is v2:
                        out[-1] = (ext(t1.w, t1, lo1 - w2, pvw + w2), pvw + w2)
                        continue
                    sb = _negbit(pv)
                    if sb is not None and sb is ext(v2.w, v2, v2.w - 1, 1):
                        out[-1] = (sext(v2.w, v2, pvw + w2), pvw + w2)
                        continue
                    if pv.op == "signs" and pv.args[0] is v2:
                        out[-1] = (sext(v2.w, v2, pvw + w2), pvw + w2)
                        continue
                    if pv.op == "signs" and v2.op == "sext" and v2.args[0] is pv.args[0]:
                        out[-1] = (sext(v2.args[0].w, v2.args[0], pvw + w2), pvw + w2)
                        continue
            out.append((v2, w2))
    if len(out) == 1:
        return out[0][0]
    w = sum(p[1] for p in out)
    return mk("cat", w, *out)


def _negbit(v):
    """-(single extracted bit): returns the one-bit extract"""
    if v.op != "lin" or v.args[1] != 0 or len(v.args[0]) != 1:
        return None
    (a, k), = v.args[0]
    if k != mask(v.w):
        return None
    if a.op == "cat" and len(a.args) == 2 and a.args[0] == (0, v.w - 1):
        return a.args[1][0]
    return None


def zext(fw, a, w):
    if w == fw:
        return a
    if isc(a):
        return a & mask(fw)
    return cat([(0, w - fw), (a, fw)])


def signs(fw, a, w):
    """w copies of the sign bit of a"""
    if w == 0:
        return 0
    if isc(a):
        return mask(w) if a >> (fw - 1) else 0
    if _known_nonneg(fw, a):
        return 0
    while a.op == "sext":
        a = a.args[0]
        if isc(a):
            break
    if not isc(a) and a.op == "cat":
        p, pw = a.args[0]
        if not isc(p):
            return signs(pw, p, w)
        return signs(pw, p, w)
    if not isc(a) and a.op == "signs":
        return mk("signs", w, a.args[0])
    return mk("signs", w, a)


def sext(fw, a, w):
    if w == fw:
        return a
    if isc(a):
        return sgn(a, fw) & mask(w)
    if _known_nonneg(fw, a):
        return zext(fw, a, w)
    if a.op == "sext":
        return sext(a.args[0].w, a.args[0], w)
    if a.op == "signs":
        return mk("signs", w, a.args[0])
    if a.op == "cat" and not isc(a.args[0][0]) and a.args[0][0].op == "signs":
        return cat([(mk("signs", w - fw, a.args[0][0].args[0]), w - fw), (a, fw)])
    return mk("sext", w, a)


def ext(w, a, lo, n):
    """bits lo..lo+n-1 of a (width w)"""
    if n == w and lo == 0:
        return a
    if n <= 0:
        return 0
    if isc(a):
        return (a >> lo) & mask(n)
    op = a.op
    if op == "ext":
        return ext(a.args[0].w, a.args[0], a.args[1] + lo, n)
    if op == "cat":
        out = []
        p = w
        for v, pw in a.args:
            hi, l0 = p, p - pw
            p = l0
            x0, x1 = max(lo, l0), min(lo + n, hi)
            if x0 < x1:
                out.append((ext(pw, v, x0 - l0, x1 - x0), x1 - x0))
        return cat(out)
    if op == "sext":
        b = a.args[0]
        bw = b.w
        if lo + n <= bw:
            return ext(bw, b, lo, n)
        if lo >= bw:
            return signs(bw, b, n)
        return sext(bw - lo, ext(bw, b, lo, bw - lo), n)
    if op == "signs":
        return mk("signs", n, a.args[0])
    if lo == 0:
        if op == "lin":
            d = {}
            c = a.args[1]
            for t, k in a.args[0]:
                e = ext(w, t, 0, n)
                de, ce = _lin(n, e)
                for t2, k2 in de.items():
                    d[t2] = d.get(t2, 0) + k2 * k
                c += ce * k
            return _mklin(n, d, c)
        if op == "mul":
            return mul(n, ext(w, a.args[0], 0, n), ext(w, a.args[1], 0, n))
        if op == "shl" and n > 0:
            return mk("shl", n, ext(w, a.args[0], 0, n), a.args[1])
    if op in ("and", "or", "xor"):
        f = {"and": and_, "or": or_, "xor": xor}[op]
        r = ext(w, a.args[0], lo, n)
        for x in a.args[1:]:
            r = f(n, r, ext(w, x, lo, n))
        return r
    if op == "ite":
        return ite(n, a.args[0], ext(w, a.args[1], lo, n), ext(w, a.args[2], lo, n))
    if op == "fn" and a.args[0] == "ldle":  # little-endian load of a whole object
        pass
    return mk("ext", n, a, lo)


def trunc(fw, a, w):
    return ext(fw, a, 0, w)


def _bitwise(op, w, a, b):
    m = mask(w)
    if isc(a) and isc(b):
        return (a & b) if op == "and" else (a | b) if op == "or" else (a ^ b)
    if a is b or a == b:
        return 0 if op == "xor" else a
    if isc(a):
        a, b = b, a
    if isc(b):
        if op == "and":
            if b == 0:
                return 0
            if b == m:
                return a
        elif op == "or":
            if b == 0:
                return a
            if b == m:
                return m
        else:
            if b == 0:
                return a
            if b != m:
                pass
        if op != "xor" or (a.op == "cat"):
            cuts = sorted(_cuts(w, a) | _cuts(w, b)) if True else None
            if len(cuts) > 2:
                parts = []
                for lo, hi in reversed(list(zip(cuts, cuts[1:]))):
                    parts.append((_bitwise(op, hi - lo, ext(w, a, lo, hi - lo), ext(w, b, lo, hi - lo)), hi - lo))
                return cat(parts)
        if op == "xor":
            # xor with all ones is -x-1
            if b == m:
                return sub(w, m, a)
    elif (a.op == "cat" or b.op == "cat"):
        cuts = sorted(_cuts(w, a) | _cuts(w, b))
        pa = _split(w, a, cuts)
        pb = _split(w, b, cuts)
        if any(isc(x) for x in pa) or any(isc(x) for x in pb) or (a.op == "cat" and b.op == "cat"):
            return cat([(_bitwise(op, hi - lo, x, y), hi - lo) for x, y, lo, hi in
                        reversed(list(zip(pa, pb, cuts, cuts[1:])))])
    args = []
    c = None
    for x in (a, b):
        if not isc(x) and x.op == op:
            args.extend(x.args)
        else:
            args.append(x)
    consts = [x for x in args if isc(x)]
    args = [x for x in args if not isc(x)]
    if consts:
        c = consts[0]
        for x in consts[1:]:
            c = (c & x) if op == "and" else (c | x) if op == "or" else (c ^ x)
    if op == "xor":
        cnt = {}
        for x in args:
            cnt[x] = cnt.get(x, 0) + 1
        args = [x for x, k in cnt.items() if k & 1]
        if c == 0:
            c = None
    else:
        args = list(dict.fromkeys(args))
    args.sort(key=lambda t: t.n)
    if c is not None:
        args.append(c)
    if not args:
        return 0
    if len(args) == 1:
        return args[0]
    return mk(op, w, *args)


def and_(w, a, b):
    return _bitwise("and", w, a, b)


def or_(w, a, b):
    return _bitwise("or", w, a, b)


def xor(w, a, b):
    return _bitwise("xor", w, a, b)


def not_(w, a):
    return xor(w, a, mask(w))


def shl(w, a, b):
    if isc(b):
        if b >= w:
            return 0
        if isc(a):
            return (a << b) & mask(w)
        if b == 0:
            return a
        return cat([(ext(w, a, 0, w - b), w - b), (0, b)])
    if a == 0:
        return 0
    return mk("shl", w, a, b)


def lshr(w, a, b):
    if isc(b):
        if b >= w:
            return 0
        if isc(a):
            return a >> b
        return cat([(0, b), (ext(w, a, b, w - b), w - b)])
    if a == 0:
        return 0
    return mk("lshr", w, a, b)


def ashr(w, a, b):
    if isc(b):
        if b >= w:
            b = w - 1
        if isc(a):
            return (sgn(a, w) >> b) & mask(w)
        return sext(w - b, ext(w, a, b, w - b), w)
    if a == 0:
        return 0
    return mk("ashr", w, a, b)


def ror(w, a, k):
    k %= w
    if k == 0:
        return a
    return cat([(ext(w, a, 0, k), k), (ext(w, a, k, w - k), w - k)])


def ite(w, c, a, b):
    if isc(c):
        return a if c else b
    if a is b or a == b and isc(a) and isc(b):
        return a
    if not isc(c) and c.op == "not":
        return ite(w, c.args[0], b, a)
    if w == 1:
        if a == 1 and b == 0:
            return c
        if a == 0 and b == 1:
            return lnot(c)
    return mk("ite", w, c, a, b)


def lnot(c):
    if isc(c):
        return 1 - c
    if c.op == "not":
        return c.args[0]
    return mk("not", 1, c)


def _strip_same(w, pred, a, b):
    """compare of identically extended values -> compare of the values"""
    if pred == "eq":
        for x, y in ((a, b), (b, a)):
            if isc(y) and not isc(x):
                if x.op == "xor" and (isc(x.args[-1]) or y == 0 and len(x.args) == 2):
                    rest = 0
                    for t in x.args[:-1]:
                        rest = xor(w, rest, t)
                    return cmp_("eq", w, rest, x.args[-1] ^ y if isc(x.args[-1]) else x.args[-1])
                if x.op == "cat":
                    # constant parts must match
                    p = w
                    rest = []
                    for v, pw in x.args:
                        lo = p - pw
                        p = lo
                        k = (y >> lo) & mask(pw)
                        if isc(v):
                            if v != k:
                                return 0
                        else:
                            rest.append((v, k, pw))
                    if len(rest) == 1:
                        v, k, pw = rest[0]
                        return cmp_("eq", pw, v, k)
                if x.op == "sext":
                    b0 = x.args[0]
                    bw = b0.w
                    if sext(bw, y & mask(bw), w) != y:
                        return 0
                    return cmp_("eq", bw, b0, y & mask(bw))
                if x.op == "signs":
                    if y == 0:
                        return lnot(cmp_("slt", x.args[0].w, x.args[0], 0))
                    if y == mask(w):
                        return cmp_("slt", x.args[0].w, x.args[0], 0)
                    return 0
                if w == 1:
                    return x if y == 1 else lnot(x)
                if x.op == "ite" and isc(x.args[1]) and isc(x.args[2]):
                    e1, e2 = x.args[1] == y, x.args[2] == y
                    if e1 and e2:
                        return 1
                    if e1:
                        return x.args[0]
                    if e2:
                        return lnot(x.args[0])
                    return 0
                if x.op == "lin" and len(x.args[0]) == 1:
                    t, k = x.args[0][0]
                    if k == 1:
                        return cmp_("eq", w, t, (y - x.args[1]) & mask(w))
                    if k == mask(w):
                        return cmp_("eq", w, t, (x.args[1] - y) & mask(w))
    return None


def cmp_(pred, w, a, b):
    """pred in eq ne ult ule ugt uge slt sle sgt sge -> 1-bit value"""
    if pred == "ne":
        return lnot(cmp_("eq", w, a, b))
    if pred in ("ugt", "sgt"):
        return cmp_(pred[0] + "lt", w, b, a)
    if pred in ("uge", "sge"):
        return lnot(cmp_(pred[0] + "lt", w, a, b))
    if pred in ("ule", "sle"):
        return lnot(cmp_(pred[0] + "lt", w, b, a))
    if isc(a) and isc(b):
        if pred == "eq":
            return int(a == b)
        if pred == "ult":
            return int(a < b)
        return int(sgn(a, w) < sgn(b, w))
    if a is b:
        return int(pred == "eq")
    if pred == "eq":
        if isc(a):
            a, b = b, a
        if isc(b) and b == 0 and a.op == "udiv" and isc(a.args[1]) and a.args[1]:
            return cmp_("ult", w, a.args[0], a.args[1])
        if not isc(a) and not isc(b):
            d = sub(w, a, b)
            if isc(d):
                return int(d == 0)
        r = _strip_same(w, "eq", a, b)
        if r is not None:
            return r
        if not isc(a) and a.op == "sext" and (isc(b) and sgn(b & mask(a.args[0].w), a.args[0].w) == sgn(b, w) or not isc(b) and b.op == "sext"):
            k = a.args[0].w if isc(b) else max(a.args[0].w, b.args[0].w)
            return cmp_("eq", k, ext(w, a, 0, k), ext(w, b, 0, k))
        if not isc(a) and not isc(b) and a.op == "cat" and b.op == "cat" and a.args[0][0] == 0 and b.args[0][0] == 0:
            k = w - min(a.args[0][1], b.args[0][1])
            return cmp_("eq", k, ext(w, a, 0, k), ext(w, b, 0, k))
        if not isc(b) and a.n > b.n:
            a, b = b, a
        return mk("cmp", 1, "eq", a, b, w)
    # order predicates
    if not isc(a) and not isc(b) or isc(a) != isc(b):
        ta = a if not isc(a) else None
        tb = b if not isc(b) else None

        def core(x, kind):
            # x of width w is an extension of narrower value
            if isc(x):
                return None
            if kind == "s" and x.op == "sext":
                return x.args[0].w
            if x.op == "cat" and x.args[0][0] == 0:
                return ("z", w - x.args[0][1])
            return None
        # signed compare of zero-extended values is unsigned compare
        def hi0(x):
            if isc(x):
                return x >> (w - 1) == 0
            return x.op == "cat" and isc(x.args[0][0]) and x.args[0][0] >> (x.args[0][1] - 1) == 0
        if pred == "slt" and hi0(a) and hi0(b):
            pred = "ult"
        if pred == "ult":
            # drop common zero high bits
            def zw(x):
                if isc(x):
                    return max(x.bit_length(), 1)
                if x.op == "cat" and x.args[0][0] == 0:
                    return w - x.args[0][1]
                return w
            k = max(zw(a), zw(b))
            if k < w:
                return cmp_("ult", k, ext(w, a, 0, k), ext(w, b, 0, k))
            if isc(b) and b and b & (b - 1) == 0 and not isc(a) and a.op in ("cat", "sext"):
                h = ext(w, a, b.bit_length() - 1, w - b.bit_length() + 1)
                if isc(h):
                    return int(h == 0)
            if isc(b) and b == 0:
                return 0
            if isc(b) and b == 1:
                return cmp_("eq", w, a, 0)
            if isc(a) and a == mask(w):
                return 0
            if isc(a) and a == 0:
                return lnot(cmp_("eq", w, b, 0))
        if pred == "slt":
            def sw(x):
                if isc(x):
                    s = sgn(x, w)
                    return (s if s >= 0 else ~s).bit_length() + 1
                if x.op == "sext":
                    return x.args[0].w
                return w
            k = max(sw(a), sw(b))
            if k < w:
                return cmp_("slt", k, ext(w, a, 0, k), ext(w, b, 0, k))
        if w == 1 and pred == "ult":
            pass
    return mk("cmp", 1, pred, a, b, w)


def subst(t, m, memo=None):
    """replace terms by values (m: Term->value); rebuilds bottom-up"""
    if isc(t):
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        return m[t]
    S = lambda x: subst(x, m, memo)
    op, w, a = t.op, t.w, t.args
    if op == "sym":
        r = t
    elif op == "lin":
        r = a[1]
        for x, k in a[0]:
            r = add(w, r, mulc(w, S(x), k))
    elif op in ("mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr"):
        f = globals()[op]
        r = f(w, S(a[0]), S(a[1]))
    elif op in ("and", "or", "xor"):
        f = globals()[op + "_" if op != "xor" else op]
        r = S(a[0])
        for x in a[1:]:
            r = f(w, r, S(x))
    elif op == "cat":
        r = cat([(S(v), pw) for v, pw in a])
    elif op == "ext":
        r = ext(a[0].w, S(a[0]), a[1], w)
    elif op == "sext":
        r = sext(a[0].w, S(a[0]), w)
    elif op == "signs":
        r = signs(a[0].w, S(a[0]), w)
    elif op == "cmp":
        r = cmp_(a[0], a[3], S(a[1]), S(a[2]))
    elif op == "not":
        r = lnot(S(a[0]))
    elif op == "ite":
        r = ite(w, S(a[0]), S(a[1]), S(a[2]))
    elif op == "fn":
        r = mk("fn", w, a[0], *[S(x) if isinstance(x, Term) else x for x in a[1:]])
    else:
        r = t
    memo[t] = r
    return r


def syms(t, out=None):
    if out is None:
        out = set()
    if isc(t) or not isinstance(t, Term):
        return out
    if t.op == "sym":
        out.add(t)
        return out
    for x in t.args:
        if isinstance(x, Term):
            syms(x, out)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, Term):
                            syms(z, out)
                elif isinstance(y, Term):
                    syms(y, out)
    return out


def show(t, d=0):
    if isc(t):
        return str(t) if t < 4096 else hex(t)
    if not isinstance(t, Term):
        return str(t)
    if d > 12:
        return "..."
    s = lambda x: show(x, d + 1)
    op, a = t.op, t.args
    if op == "sym":
        return str(a[0])
    if op == "lin":
        r = []
        for x, k in a[0]:
            k = sgn(k, t.w)
            r.append(s(x) if k == 1 else "%d*%s" % (k, s(x)))
        if a[1]:
            r.append(str(sgn(a[1], t.w)))
        return "(" + " + ".join(r) + ")"
    if op == "cat":
        return "{" + ",".join("%s:%d" % (s(v), pw) for v, pw in a) + "}"
    if op == "ext":
        return "%s[%d:%d]" % (s(a[0]), a[1] + t.w - 1, a[1])
    if op == "sext":
        return "sext%d(%s)" % (t.w, s(a[0]))
    if op == "cmp":
        return "(%s %s%d %s)" % (s(a[1]), a[0], a[3], s(a[2]))
    if op == "fn":
        return "%s(%s)" % (a[0], ",".join(s(x) for x in a[1:]))
    return "%s(%s)" % (op, ",".join(s(x) for x in a))


# ---------------------------------------------------------------- witnesses
# Two values with different normal forms are different only if some values of their unknowns tell them apart: a report needs one.
UNDECIDED = [0]
_PLAIN = {"sym", "lin", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "cat", "ext", "cmp", "not", "ite", "sext", "signs", "zext"}


def atoms(t, out, cs):
    """the unknowns of t (symbols and what no operation here can evaluate) and the constants in it"""
    if isc(t):
        if isinstance(t, int):
            cs.add(t)
        return
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            for x in t:
                atoms(x, out, cs)
        return
    if t.op == "sym" or t.op not in _PLAIN:
        out.setdefault(t, t.w)
        return
    for x in t.args:
        atoms(x, out, cs)


def witness(a, b, facts=(), n=1500):
    """values of the unknowns, consistent with the facts, for which a and b differ; None if none of the tried ones does;
    False if no consistent values were found"""
    import random, itertools
    vs, cs = {}, set()
    atoms(a, vs, cs)
    atoms(b, vs, cs)
    fs = []
    for c, v in facts:
        if isc(c):
            continue
        fv = {}
        atoms(c, fv, cs)
        if any(x in vs for x in fv):
            fs.append((c, v))
            vs.update(fv)
    vl = sorted(vs, key=str)
    rnd = random.Random(12345)

    def corners(w):
        m = mask(w)
        s = {0, 1, 2, 3, m, m - 1, m >> 1, (m >> 1) + 1, (m >> 1) + 2, 5 & m}
        for h in (4, 5, 7, 8, 15, 16, 31, 32):
            if h < w:
                s |= {1 << h, (1 << h) - 1, -(1 << h) & m}
        for c in cs:
            s |= {c & m, (c + 1) & m, (c - 1) & m, -c & m}
        return sorted(s)
    cor = {v: corners(vs[v]) for v in vl}
    one = set()
    for x, ys in pow2(fs).items():
        if x in cor:
            cor[x] = ys or [0]
            one.add(x)
    size = 1
    for v in vl:
        size *= len(cor[v])
    if size <= n:
        gen = itertools.chain(itertools.product(*[cor[v] for v in vl]), (tuple(rnd.choice(cor[v]) if v in one else rnd.getrandbits(vs[v]) for v in vl) for _ in range(n // 3)))
    else:
        gen = (tuple(rnd.choice(cor[v]) if v in one or rnd.random() < .7 else rnd.getrandbits(vs[v]) for v in vl) for _ in range(n))
    ok = 0
    for z in gen:
        m = dict(zip(vl, z))
        try:
            if any(isc(y) and y != v for y, v in ((subst(c, m), v) for c, v in fs)):
                continue
            x, y = subst(a, m), subst(b, m)
        except ZeroDivisionError:
            continue
        if not isc(x) or not isc(y):
            return False
        ok += 1
        if x != y:
            return m
    return None if ok >= 20 else False


def pow2(facts):
    """unknowns that the facts make a power of two -> the values left by the other facts"""
    fs = [(c, v) for c, v in facts if not isc(c)]
    out = {}
    for c, v in fs:
        if v == 1 and c.op == "cmp" and c.args[0] == "eq" and isc(c.args[2]) and c.args[2] == 0 and not isc(c.args[1]) and c.args[1].op == "and":
            ar = c.args[1].args
            for x in ar:
                if x.op == "sym" and any(y is add(x.w, x, mask(x.w)) for y in ar):
                    out[x] = [y for y in [0] + [1 << i for i in range(x.w)]
                              if not any(isc(r) and r != w for r, w in ((subst(k, {x: y}), w) for k, w in fs))]
    return out


def agree(a, b, facts=()):
    """equal normal forms, or no witness of a difference"""
    if a is b or isc(a) and isc(b) and a == b:
        return True
    if isc(a) and isc(b):
        return False
    if not (isc(a) or isinstance(a, Term)) or not (isc(b) or isinstance(b, Term)):
        return a == b
    if witness(a, b, facts) is None:
        UNDECIDED[0] += 1
        return True
    return False


def agreeall(x, y, facts=()):
    """agree() on every leaf of two equally shaped structures"""
    if isinstance(x, (list, tuple)):
        return isinstance(y, (list, tuple)) and len(x) == len(y) and all(agreeall(p, q, facts) for p, q in zip(x, y))
    if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
        return x == y
    return agree(x, y, facts)
