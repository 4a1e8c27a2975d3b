"""Relational numeric domain: exact integer linear forms over symbols and
remainder atoms, with interval bounds.  Decides comparisons that the interval
domain alone cannot (aligned sums, page rounding, file positions)."""
from fractions import Fraction
from math import gcd
import terms as T
from terms import isc, sgn, mask, Term


class L:
    __slots__ = ("d", "c")

    def __init__(self, d, c):
        self.d = d
        self.c = c

    def __repr__(self):
        return " + ".join(["%s*%s" % (k, a) for a, k in self.d.items()] + [str(self.c)])

    def scale(self, k):
        return L({a: n(v * k) for a, v in self.d.items()} if k else {}, n(self.c * k))

    def plus(self, o, k=1):
        d = dict(self.d)
        for a, v in o.d.items():
            r = n(d.get(a, 0) + v * k)
            if r:
                d[a] = r
            else:
                d.pop(a, None)
        return L(d, n(self.c + o.c * k))

    def minus(self, o):
        return self.plus(o, -1)

    def isconst(self):
        return not self.d

    def integral(self):
        return self.c.__class__ is int and all(v.__class__ is int for v in self.d.values())

    def key(self):
        return (frozenset(self.d.items()), self.c)

    def __eq__(self, o):
        return isinstance(o, L) and self.d == o.d and self.c == o.c

    def __hash__(self):
        return hash(self.key())


def n(x):
    if x.__class__ is Fraction and x.denominator == 1:
        return x.numerator
    return x


class Atom:
    """rem(X, m) or an opaque unsigned/signed term"""
    __slots__ = ("kind", "x", "m", "h")
    tab = {}

    def __repr__(self):
        return "rem(%r,%d)" % (self.x, self.m) if self.kind == "rem" else "<%s %s>" % (self.kind, self.x)


def atom(kind, x, m=0):
    k = (kind, x.key() if isinstance(x, L) else x, m)
    a = Atom.tab.get(k)
    if a is None:
        a = Atom()
        a.kind, a.x, a.m = kind, x, m
        Atom.tab[k] = a
    return a


def arange(st, a):
    if a.kind == "rem":
        return st.ivals.get(a) or (0, a.m - 1)
    t = a.x
    if a.kind == "u":
        lo, hi = st.ivals.get(t, (None, None))
        if lo is not None and lo >= 0:
            return lo, hi
        return 0, mask(t.w)
    lo, hi = st.ival(t, t.w)
    return lo, hi


def rng(st, f):
    lo = hi = f.c
    done = set()
    d = f.d
    # X - rem(X, m) is rounding down: monotone in X
    for a, k in d.items():
        if a in done:
            continue
        if a.kind == "rem" and k < 0:
            x = a.x
            # does d contain -k * x ?
            if x.d and all(n(d.get(b, 0)) == n(v * -k) and b not in done for b, v in x.d.items()):
                l, h = rng(st, x)
                m = a.m
                l, h = l // m * m, h // m * m
                # contribution of  -k*(x - rem) ; subtract the constant of x
                lo += -k * (l - x.c)
                hi += -k * (h - x.c)
                done.add(a)
                done.update(x.d)
    # k*(rem(Y, n) - rem(X, m)) with n | m and Y = X + c modulo n
    for a, k in d.items():
        if a.kind == "rem" and a not in done:
            for b, kb in d.items():
                if b.kind == "rem" and b is not a and kb == -k and b not in done and a.m % b.m == 0:
                    dd = reduce_mod(b.x.minus(a.x), b.m)
                    if dd.d:
                        continue
                    nn, c = b.m, dd.c
                    fl, fh = (c - nn if c else 0) - (a.m - nn), c
                    kb = n(kb)
                    lo += kb * (fl if kb > 0 else fh)
                    hi += kb * (fh if kb > 0 else fl)
                    done.add(a)
                    done.add(b)
                    break
    for a, k in d.items():
        if a in done:
            continue
        l, h = arange(st, a)
        lo += k * (l if k > 0 else h)
        hi += k * (h if k > 0 else l)
    return lo, hi


def reduce_mod(x, m):
    """canonical form modulo m (remainders by multiples of m dissolve)"""
    y = x
    while True:
        z = L({}, y.c)
        ch = False
        for a, k in y.d.items():
            if a.kind == "rem" and k * a.m % m == 0 and a.x.integral():
                z = z.plus(a.x, k)
                ch = True
            else:
                z = z.plus(L({a: 1}, 0), k)
        y = L({a: k % m for a, k in z.d.items() if k % m}, z.c % m)
        if not ch:
            return y


def signed(x, m):
    """the same form modulo m with small coefficients"""
    h = m // 2
    return L({a: k - m if k > h else k for a, k in x.d.items()}, x.c - m if x.c > h else x.c)


def rem(st, x, m):
    """unsigned remainder of the (possibly modular, 2-adic) form x by m"""
    if m == 1:
        return L({}, 0)
    lo, hi = rng(st, x)
    if 0 <= lo and hi < m:
        return x
    if not x.integral():
        d = denom(x)
        return rem(st, x.scale(d), m * d).scale(Fraction(1, d))
    y = reduce_mod(x, m)
    if not y.d:
        return y
    lo, hi = rng(st, y)
    if 0 <= lo and hi < m:
        return y
    z = signed(y, m)
    lo, hi = rng(st, z)
    if 0 <= lo and hi < m:
        return z
    # rounding down to a finer multiple first: rem(r + (W - rem(W, n)), m) = r + rem(W, m) - rem(W, n)
    for a, k in sorted((x for x in y.d.items() if x[0].kind == "rem"), key=lambda x: (-x[0].m, -len(x[0].x.d), str(x[0]))):
        if k == m - 1 and m % a.m == 0:
            zz = y.plus(L({a: 1}, 0), 1 - m)
            dd = reduce_mod(zz.minus(a.x), a.m)
            if not dd.d:
                return rem(st, zz.plus(L({}, dd.c), -1), m).plus(L({a: 1}, 0), -1).plus(L({}, dd.c))
    if flip(y, m):
        # (-A) mod m = m - 1 - (A - 1) mod m
        return L({}, m - 1).minus(rem(st, y.scale(-1).plus(L({}, -1)), m))
    return L({atom("rem", y, m): 1}, 0)


def flip(y, m):
    h = m // 2
    g = [(a, k) for a, k in y.d.items() if a.kind != "rem"] or list(y.d.items())
    s = sum((1 if k > h else -1 if k < h else 0) for a, k in g)
    if s:
        return s > 0
    g = [x for x in g if x[1] != h] or [x for x in y.d.items() if x[1] != h]
    if not g:
        return False
    return min(g, key=lambda x: str(x[0]))[1] > h


def denom(x):
    d = x.c.denominator
    for v in x.d.values():
        d = d * v.denominator // gcd(d, v.denominator)
    return d


def exact(st, t, w):
    """integer form of the unsigned value of t (width w)"""
    if isc(t):
        return L({}, t & mask(w))
    f = lin(st, t, w)
    lo, hi = rng(st, f)
    if 0 <= lo and hi <= mask(w):
        return f
    if lo >= -(1 << w) and hi < 0:
        return f.plus(L({}, 1 << w))
    return rem(st, f, 1 << w)


def sexact(st, t, w):
    if isc(t):
        return L({}, sgn(t, w))
    f = lin(st, t, w)
    lo, hi = rng(st, f)
    if -(1 << (w - 1)) <= lo and hi < 1 << (w - 1):
        return f
    return L({atom("s", t): 1}, 0)


def divq(st, x, m):
    """floor(x/m) for an exact non-negative form"""
    r = rem(st, x, m)
    return x.minus(r).scale(Fraction(1, m))


def lin(st, t, w):
    """a form congruent to t modulo 2**w"""
    if isc(t):
        return L({}, sgn(t, w))
    op = t.op
    if st.eqs and t in st.eqs:
        return lin(st, st.eqs[t], w)
    if op == "sym":
        sb = st.user.get("rels")
        if sb and t in sb:
            return norm(st, sb[t])
        iv = st.ivals.get(t)
        if iv and iv[0] == iv[1]:
            return L({}, iv[0])
        return L({atom("s" if (iv[0] < 0 if iv else t.w >= 32) else "u", t): 1}, 0)
    if op == "lin":
        f = L({}, sgn(t.args[1], w))
        for a, k in t.args[0]:
            f = f.plus(lin(st, a, w), sgn(k, w))
        return f
    if op == "cat":
        f = L({}, 0)
        sh = w
        for p, m in t.args:
            sh -= m
            f = f.plus(part(st, p, m), 1 << sh)
        return f
    if op == "ext":
        return part(st, t, w)
    if op == "sext":
        return sexact(st, t.args[0], t.args[0].w)
    if op in ("udiv", "urem") or (op == "fn" and t.args[0] in ("udiv", "urem")):
        a, b = t.args[-2:]
        if isc(b) and b:
            x = exact(st, a, w)
            if op == "udiv" or t.args[0] == "udiv":
                return divq(st, x, b)
            return rem(st, x, b)
    if op == "ite":
        d = st.decide(t.args[0])
        if d is not None:
            return lin(st, t.args[1 if d else 2], w)
    if op in ("not", "cmp", "and", "or") and t.w == 1:
        v = st.decide(t)
        if v is not None:
            return L({}, v)
        return L({atom("u", t): 1}, 0)
    iv = st.ivals.get(t)
    return L({atom("u" if iv and iv[0] >= 0 else "s", t): 1}, 0)


def norm(st, f):
    """apply the solved congruences to a form"""
    sb = st.user.get("rels")
    if not sb:
        return f
    if not any(a.kind == "rem" or a.x in sb for a in f.d):
        return f
    z = L({}, f.c)
    for a, k in f.d.items():
        if a.kind == "rem":
            iv = st.ivals.get(a)
            if iv and iv[0] == iv[1]:
                z = z.plus(L({}, n(k * iv[0])))
            else:
                z = z.plus(rem(st, norm(st, a.x), a.m), k)
        elif a.x in sb:
            z = z.plus(norm(st, sb[a.x]), k)
        else:
            z = z.plus(L({a: 1}, 0), k)
    return z


def occurs(b, f):
    return any(a is b or a.kind == "rem" and occurs(b, a.x) for a in f.d)


def solve(st, a, r):
    """learn rem(X, m) == r: substitute a symbol of X"""
    x, m = a.x, a.m
    for b, k in x.d.items():
        if b.kind != "rem" and k in (1, m - 1) and not isc(b.x) and b.x.op == "sym":
            rest = x.minus(L({b: k}, 0))
            if occurs(b, rest) or isinstance(r, L) and occurs(b, r):
                continue
            # b = +-(r - rest) mod m
            e = (r if isinstance(r, L) else L({}, r)).minus(rest)
            if k != 1:
                e = e.scale(-1)
            lo, hi = arange(st, b)
            e = rem(st, e.plus(L({}, -lo)), m)
            q = T.sym("q%d.%s" % (m, b.x.args[0]), b.x.w)
            st.ivals[q] = (0, (hi - lo) // m)
            sb = dict(st.user.get("rels") or {})
            sb[b.x] = L({atom("u", q): m}, lo).plus(e)
            st.user["rels"] = sb
            return True
    return False


def part(st, p, m):
    """unsigned value of an m-bit piece"""
    if isc(p):
        return L({}, p & mask(m))
    if p.op == "ext":
        v, lo = p.args[0], p.args[1]
        vw = v.w
        f = lin(st, v, vw)
        if lo == 0:
            return rem(st, f, 1 << m)
        return rem(st, f, 1 << (lo + m)).minus(rem(st, f, 1 << lo)).scale(Fraction(1, 1 << lo))
    return exact(st, p, m)


def decide(st, c):
    pred, a, b, w = c.args
    if pred == "eq":
        x, y = lin(st, a, w), lin(st, b, w)
        d = x.minus(y)
        if d.isconst() and d.c.__class__ is int:
            return int(d.c & mask(w) == 0)
        lo, hi = rng(st, d)
        if lo > 0 and hi < 1 << w or hi < 0 and lo > -(1 << w):
            return 0
        if d.integral():
            # congruence: every coefficient divisible by g but not the constant
            g = 1 << w
            for k in d.d.values():
                g = gcd(g, k)
            if d.c % g:
                return 0
        return None
    if pred == "ult":
        x, y = exact(st, a, w), exact(st, b, w)
    elif pred == "slt":
        x, y = sexact(st, a, w), sexact(st, b, w)
    else:
        return None
    d = x.minus(y)
    lo, hi = rng(st, d)
    if hi < 0:
        return 1
    if lo >= 0:
        return 0
    return None


def refine(st, c, val):
    """narrow the intervals of the symbols after learning c == val; False if contradictory"""
    pred, a, b, w = c.args
    if pred == "eq":
        x, y = exact(st, a, w), exact(st, b, w)
        d = x.minus(y)
        if not val:
            lo, hi = rng(st, d)
            if lo == 0:
                return bound(st, d.scale(-1), -1)
            if hi == 0:
                return bound(st, d, -1)
            return True
        if not (bound(st, d, 0) and bound(st, norm(st, d).scale(-1), 0)):
            return False
        d = norm(st, d)
        if len(d.d) == 2 and all(a.kind == "rem" for a in d.d):
            # rem(A, m) - rem(B, n) == K with n | m and A = B modulo n: the quotient digit is known
            (p, kp), (q, kq) = sorted(d.d.items(), key=lambda x: -x[0].m)
            if kp == -kq and p.m % q.m == 0:
                dd = reduce_mod(p.x.minus(q.x), q.m)
                K = n(-d.c / kp if kp.__class__ is Fraction else Fraction(-d.c, kp))
                if not dd.d and not dd.c:
                    if K.__class__ is not int or K % q.m or not 0 <= K < p.m:
                        return False
                    s = T.sym("s%d.%s" % (q.m, p), 32)
                    st.ivals[s] = (0, q.m - 1)
                    solve(st, p, L({atom("u", s): 1}, K))
        return True
    if pred == "ult":
        x, y = exact(st, a, w), exact(st, b, w)
    elif pred == "slt":
        x, y = sexact(st, a, w), sexact(st, b, w)
    else:
        return True
    d = norm(st, x.minus(y))
    return bound(st, d, -1) if val else bound(st, d.scale(-1), 0)


def narrow(st, a, lo, hi):
    st.ivals[a if a.kind == "rem" else a.x] = (lo, hi)
    if a.kind == "rem" and lo == hi:
        return solve(st, a, lo)
    return False


def bound(st, d, ub):
    """d <= ub"""
    if not d.d:
        return d.c <= ub
    lo, hi = rng(st, d)
    if lo > ub:
        return False
    for a, k in list(d.d.items()):
        l, h = arange(st, a)
        rest = lo - k * (l if k > 0 else h)
        lim = Fraction(ub - rest) / k
        if k > 0:
            h2 = min(h, lim.__floor__())
            if h2 < l:
                return False
            if h2 < h:
                if narrow(st, a, l, h2):
                    return bound(st, norm(st, d), ub)
        else:
            l2 = max(l, lim.__ceil__())
            if l2 > h:
                return False
            if l2 > l:
                if narrow(st, a, l2, h):
                    return bound(st, norm(st, d), ub)
    return True


def constant(st, t):
    if isc(t):
        return t
    f = lin(st, t, t.w)
    if f.isconst() and f.c.__class__ is int:
        return f.c & mask(t.w)
    return t
