"""S06: the C library's heap.  malloc, calloc, realloc and free are analysed over heaps of blocks of unknown sizes: addresses and
sizes are linear forms over the unknown sizes, compared in a polyhedral domain."""
import itertools
import terms as T
import clib
from clib import interp, whereis
from sai import State, AnalysisError, P, F, Forks, isfault
from terms import isc, mask, sgn
import par


# ---------------------------------------------------------------- linear constraints over integers
def gcd_all(d):
    from math import gcd
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    return g


def tighten(c):
    """(coefs, const) meaning sum + const >= 0"""
    d, k = c
    g = gcd_all(d)
    if g > 1:
        return {a: v // g for a, v in d.items()}, k // g
    return c


def infeasible(cs):
    """Fourier-Motzkin with integer tightening: True when no integer point satisfies all"""
    cs = [tighten(c) for c in cs]
    while True:
        if any(not d and k < 0 for d, k in cs):
            return True
        best = {}
        for d, k in cs:
            if d:
                key = tuple(sorted(d.items()))
                if key not in best or k < best[key]:
                    best[key] = k
        cs = [(dict(key), k) for key, k in best.items()]
        for d, k in cs:
            o = best.get(tuple(sorted((a, -v) for a, v in d.items())))
            if o is not None and k + o < 0:
                return True
        vs = {a for d, _ in cs for a in d}
        if not vs:
            return False
        x = min(vs, key=lambda a: (sum(d.get(a, 0) > 0 for d, _ in cs) * sum(d.get(a, 0) < 0 for d, _ in cs), a))
        pos = [c for c in cs if c[0].get(x, 0) > 0]
        neg = [c for c in cs if c[0].get(x, 0) < 0]
        rest = [c for c in cs if not c[0].get(x, 0)]
        for p in pos:
            for q in neg:
                a, b = p[0][x], -q[0][x]
                d = {}
                for y in set(p[0]) | set(q[0]):
                    v = b * p[0].get(y, 0) + a * q[0].get(y, 0)
                    if v:
                        d[y] = v
                rest.append(tighten((d, b * p[1] + a * q[1])))
        if len(rest) > 4000:
            raise AnalysisError("polyhedron too large")
        cs = rest


class Poly:
    """the 'rel' domain of the interpreter; constraints live in st.user['poly']"""

    def __init__(self):
        self.memo = {}

    def cons(self, st):
        return st.user["poly"]

    def put(self, st, form, strict=0):
        """assume form - strict >= 0; False if empty"""
        d, k = form
        st.user = dict(st.user)
        st.user["poly"] = st.user["poly"] + ((tuple(sorted(d.items())), k - strict),)
        return not self.empty(st)

    def empty(self, st, extra=()):
        key = (st.user["poly"], tuple(extra))
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = infeasible([(dict(d), k) for d, k in st.user["poly"] + tuple(extra)])
        return r

    def ge(self, st, form):
        """form >= 0 holds everywhere"""
        d, k = form
        if not d:
            return k >= 0
        return self.empty(st, ((tuple(sorted((a, -v) for a, v in d.items())), -k - 1),))

    def form(self, t, w):
        out = {}
        c = self.collect(t, w, 1, out)
        return {a: sgn(v & mask(w), w) for a, v in out.items() if v & mask(w)}, sgn(c & mask(w), w)

    def collect(self, t, w, k, out):
        d, c = T._lin(w, t)
        c *= k
        for a, v in d.items():
            v *= k
            if a.op == "cat" and len(a.args) == 2 and a.args[1][0] == 0 and not isc(a.args[0][0]):
                e, lo = a.args[0][0], a.args[1][1]       # a multiple of 2**lo rounded down
                if e.op == "ext" and e.args[1] == lo and e.args[0].w == w:
                    d2 = {}
                    c2 = self.collect(e.args[0], w, 1, d2)
                    if all(x % (1 << lo) == 0 for x in d2.values()):
                        c += v * (c2 >> lo << lo)
                        for x, y in d2.items():
                            out[x] = out.get(x, 0) + v * y
                        continue
            out[a.n] = out.get(a.n, 0) + v
        return c

    def exact(self, st, t, w, signed=False):
        """the integer value of t as a linear form, or None"""
        d, c = self.form(t, w)
        lo = -(1 << (w - 1)) if signed else 0
        for q in (0, 1, -1, 2, -2):
            f = (d, c + (q << w))
            if self.ge(st, (d, f[1] - lo)) and self.ge(st, ({a: -v for a, v in d.items()}, lo + mask(w) - f[1])):
                return f
        return None

    @staticmethod
    def minus(a, b):
        d = dict(a[0])
        for x, v in b[0].items():
            r = d.get(x, 0) - v
            if r:
                d[x] = r
            else:
                d.pop(x, None)
        return d, a[1] - b[1]

    def sides(self, st, c):
        """forms (lo, hi) such that the comparison means lo < hi, or None"""
        pred, a, b, w = c.args
        if pred == "ult":
            fa, fb = self.exact(st, a, w), self.exact(st, b, w)
        else:
            fa, fb = self.exact(st, a, w, True), self.exact(st, b, w, True)
            if (fa is None or fb is None) and isc(b) and sgn(b, w) >= 0:
                u = self.exact(st, a, w)
                if u is not None and self.ge(st, self.minus(u, ({}, sgn(b, w)))):
                    return ({}, (1 << (w - 1)) - 1), u        # negative as a signed number
            if (fa is None or fb is None) and isc(a) and sgn(a, w) >= -1:
                u = self.exact(st, b, w)
                if u is not None and self.ge(st, self.minus(u, ({}, sgn(a, w) + 1))):
                    return u, ({}, 1 << (w - 1))
        if fa is None or fb is None:
            return None
        return fa, fb

    def eqsides(self, st, c):
        _, a, b, w = c.args
        if not isc(a) and a.op == "ext" and isc(b) and a.args[0].w == a.args[1] + w:
            lo = a.args[1]                               # the upper bits of a multiple of 2**lo
            a, b, w = T.cat([(a, w), (0, lo)]), b << lo, w + lo
        return self.exact(st, a, w), self.exact(st, b, w)

    def decide(self, st, c):
        if c.args[0] == "eq":
            fa, fb = self.eqsides(st, c)
            if fa is None or fb is None:
                return None
            d, e = self.minus(fa, fb), self.minus(fb, fa)
            if self.ge(st, d) and self.ge(st, e):
                return 1
            if self.ge(st, (d[0], d[1] - 1)) or self.ge(st, (e[0], e[1] - 1)):
                return 0
            if any(not self.mult(d, m) for m in (2, 4, 8, 16)):
                return 0
            return None
        s = self.sides(st, c)
        if s is None:
            return None
        if self.ge(st, self.less(s)):
            return 1
        if self.ge(st, self.minus(s[0], s[1])):
            return 0
        return None

    @staticmethod
    def mult(d, m):
        """may the form be zero modulo m?"""
        return d[1] % m == 0 or any(v % m for v in d[0].values())

    def less(self, s):
        d, k = self.minus(s[1], s[0])
        return d, k - 1

    def refine(self, st, c, val):
        pred, a, b, w = c.args
        if pred == "eq":
            fa, fb = self.eqsides(st, c)
            if fa is None or fb is None:
                return True
            d, e = self.minus(fa, fb), self.minus(fb, fa)
            if val:
                return self.put(st, d) and self.put(st, e)
            if self.ge(st, d):
                return self.put(st, d, 1)
            if self.ge(st, e):
                return self.put(st, e, 1)
            return True
        s = self.sides(st, c)
        if s is None:
            return True
        return self.put(st, self.less(s)) if val else self.put(st, self.minus(s[0], s[1]))


POLY = Poly()


class Bad(Exception):
    pass


class Heap:
    """memory between the heap's bounds, addressed by linear forms"""

    def __init__(self, M, hf):
        self.M, self.w, self.hf = M, M.pw, hf
        self.wb = M.pw // 8

    def f(self, st, t):
        r = POLY.exact(st, t, self.w)
        if r is None:
            raise Bad("an address or size may wrap around (%s)" % T.show(t) if not isc(t) else "bad address")
        return r

    def find(self, st, a, n):
        fa = self.f(st, a)
        ram = st.user["mem"]
        if a in ram:
            return a, fa
        for k in ram:
            fk = self.f(st, k)
            d = POLY.minus(fa, fk)
            if POLY.ge(st, (d[0], d[1] - self.wb)):
                continue
            e = POLY.minus(fk, fa)
            if POLY.ge(st, (e[0], e[1] - n)):
                continue
            if POLY.ge(st, d) and POLY.ge(st, e):
                return k, fa
            raise Bad("the word accessed may partly overlap another header or footer")
        return None, fa

    def load(self, st, a, n):
        k, fa = self.find(st, a, n)
        if k is None or n != self.wb:
            raise Bad("something that is neither a block's header nor its footer is read")
        return st.user["mem"][k]

    def store(self, st, a, n, v):
        k, fa = self.find(st, a, n)
        u = st.user
        if n != self.wb:
            raise Bad("a partial word is written")
        if not POLY.ge(st, POLY.minus(fa, u["lo"])) or not POLY.ge(st, POLY.minus(u["brk"], (fa[0], fa[1] + n))):
            raise Bad("a word outside the heap is written")
        for d, e in u["keep"]:
            if not POLY.ge(st, POLY.minus(d, (fa[0], fa[1] + n))) and not POLY.ge(st, POLY.minus(fa, e)):
                raise Bad("the contents of an allocated block are overwritten")
        st.user = u = dict(u)
        u["mem"] = dict(u["mem"])
        u["mem"][k if k is not None else a] = v
        u["writes"] = u["writes"] + (fa,)


def add(w, *xs):
    r = 0
    for x in xs:
        r = T.add(w, r, x)
    return r


class Env:
    """a heap of blocks [allocated?] with unknown sizes"""

    def __init__(self, M, flags, req=None, extra=0):
        self.M = M
        self.w = w = M.pw
        self.wb = w // 8
        self.hf = hf = 2 * self.wb
        self.g = g = 2 * hf
        self.start = 0x1000 + hf
        st = self.st = State(M)
        H = Heap(M, hf)
        self.H = H
        ks = [T.sym("k%d" % i, w) for i in range(len(flags))]
        cons = []
        pos = self.start
        mem = {}
        self.blocks = []
        for k, fl in zip(ks, flags):
            s = T.mulc(w, k, g)
            end = add(w, pos, 2 * hf, s)
            mem[pos] = s
            mem[add(w, pos, self.wb)] = int(fl)
            mem[T.add(w, end, -2 * self.wb)] = int(fl)
            mem[T.add(w, end, -self.wb)] = s
            cons.append((((k.n, 1),), -int(fl)))
            self.blocks.append((pos, s, fl))
            pos = end
        self.stop = pos
        tot = POLY.form(pos, w)
        tot = tot[0], tot[1] + (1 << w if tot[1] < 0 else 0)
        cons.append((tuple(sorted(((a, -v) for a, v in tot[0].items()))), mask(w) - g - tot[1]))
        if req is not None:
            cons += req
        st.user = {"ram": H, "rel": POLY, "mem": mem, "poly": tuple(cons), "writes": (), "keep": (), "lo": ({}, self.start),
                   "brk": tot, "end": pos, "log": ()}
        keep = []
        for p, s, fl in self.blocks:
            if fl:
                d = T.add(w, p, hf)
                keep.append((H.f(st, d), H.f(st, add(w, d, s))))
        st.user["keep"] = tuple(keep)
        st.gset("__heap_start", self.start, self.wb)
        st.gset("__heap_stop", pos, self.wb)

    def unkeep(self, i):
        d = self.H.f(self.st, T.add(self.w, self.blocks[i][0], self.hf))
        self.st.user["keep"] = tuple(x for x in self.st.user["keep"] if x[0] != d)


def walk(E, st):
    """the heap's blocks after the call: [(pos form, size term, flag)]"""
    H, w, hf, wb = E.H, E.w, E.hf, E.wb
    try:
        start, stop = st.gget("__heap_start", wb), st.gget("__heap_stop", wb)
    except AnalysisError as e:
        raise Bad("the heap's bounds are lost (%s)" % e)
    pos = start
    fs = H.f(st, stop)
    if H.f(st, start) != ({}, E.start):
        raise Bad("the heap's start has moved")
    if not same(st, fs, st.user["brk"]):
        raise Bad("the heap's end is not the end of its memory")
    out = []
    for _ in range(12):
        fp = H.f(st, pos)
        if POLY.ge(st, POLY.minus(fp, fs)):
            if not same(st, fp, fs):
                raise Bad("the blocks run past the heap's end")
            return out
        try:
            s, fl = H.load(st, pos, wb), H.load(st, T.add(w, pos, wb), wb)
            end = add(w, pos, 2 * hf, s)
            fe = H.f(st, end)
            if not POLY.ge(st, POLY.minus(fs, fe)):
                raise Bad("a block reaches past the heap's end")
            fl2, s2 = H.load(st, T.add(w, end, -2 * wb), wb), H.load(st, T.add(w, end, -wb), wb)
        except Bad as e:
            raise Bad("after the call the heap is broken: %s" % e)
        if not same(st, H.f(st, s), H.f(st, s2)):
            raise Bad("a block's header and footer disagree on its size")
        if not isc(fl) or not isc(fl2) or (fl == 0) != (fl2 == 0):
            raise Bad("a block's header and footer disagree on whether it is allocated")
        d, c = POLY.form(s, w)
        if c % E.g or any(v % E.g for v in d.values()):
            raise Bad("a block's size is not a multiple of the allocation unit")
        out.append((fp, s, fl != 0))
        pos = end
    raise Bad("the heap has more blocks than it can")


def same(st, a, b):
    return POLY.ge(st, POLY.minus(a, b)) and POLY.ge(st, POLY.minus(b, a))


def h_memcpy(E):
    def h(I, st, a, line):
        n = a[2]
        fd, fs, fn = E.H.f(st, a[0]), E.H.f(st, a[1]), E.H.f(st, n)
        u = st.user
        for x in u["writes"]:
            if not POLY.ge(st, POLY.minus(fs, (x[0], x[1] + E.wb))) and not POLY.ge(st, POLY.minus(x, plus(fs, fn))):
                raise Bad("the contents are copied after being overwritten")
        st.user = dict(u)
        st.user["log"] = u["log"] + (("copy", fd, fs, fn),)
        return a[0]
    return h


def plus(a, b):
    return POLY.minus(a, POLY.minus(({}, 0), b))


def h_sbrk(E):
    def h(I, st, a, line):
        inc = a[0]
        fi = POLY.exact(st, inc, E.w)
        if fi is None or not POLY.ge(st, (fi[0], fi[1] - 1)) or not POLY.ge(st, POLY.minus(({}, (1 << (E.w - 1)) - 1), fi)):
            raise Bad("the heap's memory is changed by an amount that is not a positive number (%s)" % (T.show(inc) if not isc(inc) else sgn(inc, E.w)))
        s = st.fork()
        for o in st.mem.values():
            o.owner = None
        s.user = dict(s.user)
        s.user["nomem"] = 1
        out = [(s, mask(E.w))]
        old = st.user["end"]
        nb = plus(st.user["brk"], fi)
        st.user = dict(st.user)
        st.user["brk"] = nb
        st.user["end"] = T.add(E.w, old, inc)
        if POLY.put(st, POLY.minus(({}, mask(E.w) - E.g), nb)):
            out.append((st, old))
        return Forks(out)
    return h


def run(M, E, fn, args, hooks=None):
    """[(state or None, message)]"""
    I = interp(M)
    I.hooks["memcpy"] = I.hooks["llvm.memcpy"] = h_memcpy(E)
    if M.func("__sbrk"):
        I.hooks["__sbrk"] = h_sbrk(E)
    if hooks:
        I.hooks.update(hooks)
    bad = []

    def rec(s, e):
        if isfault(e):
            bad.append((str(e), clib.where(I, s)))
            return True
        return False
    I.recover = rec
    st = E.st
    try:
        fin = I.run(st, fn, args)
    except Bad as e:
        return [], bad + [(str(e), None)]
    return fin, bad


def ready(M, st):
    """the heap is initialised"""
    n = 0
    for g in M.globals:
        if "uninitialized" in g:
            st.store(P(g, 0), 4 if M.pw == 32 else 2, 0)
            n += 1
    return n


def nm(flags):
    return "/".join("used" if f else "free" for f in flags)


def judge_alloc(E, st, reqf, old, moved=None):
    """the heap after an allocation of reqf bytes whose result is st.ret; old = blocks that must stay"""
    H = E.H
    bl = walk(E, st)
    ret = st.ret
    if isinstance(ret, P) or (isc(ret) and ret == 0):
        if isinstance(ret, P):
            raise Bad("the result is not in the heap")
        new = []
    else:
        fr = H.f(st, ret)
        if fr[1] % E.g or any(v % E.g for v in fr[0].values()):
            raise Bad("the result is not aligned")
        new = [b for b in bl if same(st, (b[0][0], b[0][1] + E.hf), fr)]
        if not new or not new[0][2]:
            raise Bad("the result is not the data of an allocated block")
        if not POLY.ge(st, POLY.minus(H.f(st, new[0][1]), reqf)):
            raise Bad("the block returned is smaller than requested")
    want = [(E.H.f(st, p), s) for p, s, fl in old]
    for p, s in want:
        m = [b for b in bl if same(st, b[0], p)]
        if not m or not m[0][2] or not same(st, H.f(st, m[0][1]), H.f(st, s)):
            raise Bad("another allocated block changed or vanished")
        if new and same(st, m[0][0], new[0][0]):
            raise Bad("the result is a block that was allocated already")
    n = sum(1 for b in bl if b[2])
    if n != len(want) + len(new):
        raise Bad("memory that nobody asked for is marked allocated, or allocated memory is lost")
    return bl, new[0] if new else None


def fits(E, st, blocks, reqf):
    """a free block that may be large enough"""
    for p, s, fl in blocks:
        if not fl:
            d = POLY.minus(E.H.f(st, s), reqf)
            if not POLY.empty(st, ((tuple(sorted(d[0].items())), d[1]),)):
                return True
    return False


def reqs(M):
    """requests: (name, term, exact form, constraints, impossible)"""
    w = M.pw
    g = 4 * (w // 8)
    m = T.sym("m", w)
    top = (1 << w) // g
    out = []
    for j in sorted({1, 2, g // 2, g - 1, g}):
        out.append(("%d*m+%d" % (g, j), T.add(w, T.mulc(w, m, g), j), ({m.n: g}, j), [(((m.n, 1),), 0), (((m.n, -1),), top - 3)], False))
        v = (top - 2) * g + j
        out.append((str(v), v, ({}, v), [], False))
        if j < g:
            v = (top - 1) * g + j
            out.append((str(v), v, ({}, v), [], True))
    out.append(("0", 0, ({}, 0), [], True))
    return out


def do_malloc(M, flags, q):
    name, t, f, cons, imp = q
    E = Env(M, flags, cons)
    ready(M, E.st)
    fin, bad = run(M, E, "malloc", [t])
    res = [(m, w) for m, w in bad]
    n = 0
    for st in fin:
        n += 1
        try:
            used = [b for b in E.blocks if b[2]]
            bl, new = judge_alloc(E, st, f, used)
            if imp and new:
                raise Bad("a request that cannot be satisfied returns memory")
            if new and not POLY.ge(st, POLY.minus((f[0], f[1] + E.g + 2 * E.hf), E.H.f(st, new[1]))):
                raise Bad("the block returned takes up much more memory than requested")
            if not new and not imp and not st.user.get("nomem"):
                if fits(E, st, E.blocks, f):
                    raise Bad("a null pointer is returned though a free block is large enough")
                if M.func("__sbrk") and not POLY.ge(st, (f[0], f[1] - (1 << (E.w - 1)) + 4 * E.g)) and \
                        not POLY.ge(st, (plus(f, E.H.f(st, E.stop))[0], plus(f, E.H.f(st, E.stop))[1] - mask(E.w) + 4 * E.g)):
                    raise Bad("a null pointer is returned without asking the system for memory")
        except Bad as e:
            res.append((str(e), None))
    return res, n


def do_free(M, flags, i):
    E = Env(M, flags)
    ready(M, E.st)
    p, s, fl = E.blocks[i]
    E.unkeep(i)
    fin, bad = run(M, E, "free", [T.add(E.w, p, E.hf)])
    res = list(bad)
    n = 0
    for st in fin:
        n += 1
        try:
            res_ = judge_free(E, st, i)
        except Bad as e:
            res.append((str(e), None))
    return res, n


def judge_free(E, st, i, bl=None):
    bl = walk(E, st)
    H = E.H
    used = [b for k, b in enumerate(E.blocks) if b[2] and k != i]
    for p, s, fl in used:
        fp = H.f(st, p)
        m = [b for b in bl if same(st, b[0], fp)]
        if not m or not m[0][2] or not same(st, H.f(st, m[0][1]), H.f(st, s)):
            raise Bad("another allocated block changed or vanished")
    if sum(1 for b in bl if b[2]) != len(used):
        raise Bad("the freed block is still allocated")
    lo = hi = i
    if i and not E.blocks[i - 1][2]:
        lo = i - 1
    if i + 1 < len(E.blocks) and not E.blocks[i + 1][2]:
        hi = i + 1
    a, b = H.f(st, E.blocks[lo][0]), H.f(st, T.add(E.w, E.blocks[hi][0], E.blocks[hi][1]))
    for x in bl:
        if POLY.ge(st, POLY.minus(a, x[0])) and POLY.ge(st, POLY.minus(plus(x[0], H.f(st, x[1])), b)):
            return
    raise Bad("the freed block is not joined with its free neighbours")


def do_realloc(M, flags, i, q):
    name, t, f, cons, imp = q
    E = Env(M, flags, cons)
    ready(M, E.st)
    res, n = [], 0
    if i is None:
        fin, bad = run(M, E, "realloc", [0, t])
        for st in fin:
            n += 1
            try:
                bl, new = judge_alloc(E, st, f, [b for b in E.blocks if b[2]])
                if new and imp:
                    raise Bad("a request that cannot be satisfied returns memory")
                if not new and not imp and not st.user.get("nomem") and fits(E, st, E.blocks, f):
                    raise Bad("a null pointer is returned though a free block is large enough")
            except Bad as e:
                res.append((str(e), None))
        return res + bad, n
    p, s, fl = E.blocks[i]
    E.unkeep(i)
    ptr = T.add(E.w, p, E.hf)
    fin, bad = run(M, E, "realloc", [ptr, t])
    res += bad
    for st in fin:
        n += 1
        try:
            others = [b for k, b in enumerate(E.blocks) if b[2] and k != i]
            H = E.H
            fp, fs = H.f(st, ptr), H.f(st, s)
            if isc(st.ret) and st.ret == 0:
                bl, new = judge_alloc(E, st, f, [b for b in E.blocks if b[2]])
                if not imp:
                    if POLY.ge(st, POLY.minus(fs, f)):
                        raise Bad("shrinking a block fails")
                    if not st.user.get("nomem") and fits(E, st, E.blocks, f):
                        raise Bad("a null pointer is returned though a free block is large enough")
                continue
            bl, new = judge_alloc(E, st, f, others)
            if imp:
                raise Bad("a request that cannot be satisfied returns memory")
            fr = H.f(st, st.ret)
            if same(st, fr, fp):
                for x in st.user["writes"]:
                    # the first min(old, new) bytes stay
                    if POLY.ge(st, POLY.minus((x[0], x[1] + E.wb), (fp[0], fp[1] + 1))) and not POLY.ge(st, POLY.minus(x, plus(fp, f))) and \
                            not POLY.ge(st, POLY.minus(x, plus(fp, fs))):
                        raise Bad("the contents are overwritten")
            else:
                cp = [c for c in st.user["log"] if c[0] == "copy" and same(st, c[1], fr) and same(st, c[2], fp)]
                if not cp:
                    raise Bad("the contents are not copied to the new block")
                c = cp[-1]
                if not POLY.ge(st, POLY.minus(c[3], fs)) and not POLY.ge(st, POLY.minus(c[3], f)):
                    raise Bad("not all of the contents are copied to the new block")
                if not POLY.ge(st, POLY.minus(H.f(st, new[1]), c[3])):
                    raise Bad("more is copied than the new block holds")
        except Bad as e:
            res.append((str(e), None))
    return res, n


def do_init(M, cfg, j, fail):
    """the first request on a heap that is not there yet"""
    w, wb = M.pw, M.pw // 8
    hf = 2 * wb
    st = State(M)
    E = type("E", (), {})()
    E.M, E.w, E.wb, E.hf, E.g = M, w, wb, hf, 2 * hf
    base = 0x2000 + j
    top = 0x3000 - (j * 5) % 32
    lo, hi = base, top
    E.H = Heap(M, hf)
    hooks = {}
    brk = base if cfg == "linux" else top
    st.user = {"ram": E.H, "rel": POLY, "mem": {}, "poly": (), "writes": (), "keep": (), "lo": ({}, base), "brk": ({}, brk), "end": base, "log": (), "k": 0}
    M.symaddr = {}
    try:
        if cfg == "linux":
            def sbrk(I, s, a, line):
                inc = sgn(a[0], w)
                s.user = dict(s.user)
                k = s.user["k"]
                s.user["k"] = k + 1
                if k in fail:
                    s.user["nomem"] = 1
                    return mask(w)
                old = s.user["brk"][1]
                s.user["brk"] = ({}, old + inc)
                return old
            hooks["__sbrk"] = sbrk
        elif cfg == "dpmi":
            st.gset("__dpmi_heap_start", base, wb)
            st.gset("__dpmi_heap_stop", top, wb)
        else:
            M.symaddr = {"_stop_alldata__": base, "_start_stack__": top}
        I = interp(M)
        I.hooks["memcpy"] = h_memcpy(E)
        I.hooks.update(hooks)
        try:
            fin = I.run(st, "malloc", [24])
        except Bad as e:
            return [(str(e), None)], 0
        res = []
        for s in fin:
            try:
                if isc(s.ret) and s.ret == 0:
                    if not s.user.get("nomem"):
                        raise Bad("the first request fails")
                    continue
                if s.user.get("nomem"):
                    pass
                a = s.gget("__heap_start", wb)
                b = s.gget("__heap_stop", wb)
                if not isc(a) or not isc(b) or a < lo or b > s.user["brk"][1] or a % hf or (a + hf) % (2 * hf):
                    raise Bad("the heap's bounds are wrong")
                if cfg != "linux" and (a - lo > 2 * hf or hi - b > 2 * hf):
                    raise Bad("part of the memory is not used")
                E.start = a
                s.user = dict(s.user)
                s.user["brk"] = ({}, b)
                E.blocks = []
                judge_alloc(E, s, ({}, 24), [])
            except Bad as e:
                res.append((str(e), None))
        return res, len(fin)
    finally:
        M.symaddr = {}


def do_calloc(M, a, b):
    w = M.pw
    st = State(M)
    log = []

    def malloc(I, s, x, line):
        s2 = s.fork()
        for o in s.mem.values():
            o.owner = None
        s.user = dict(s.user, got=x[0])
        s2.user = dict(s2.user, got=x[0])
        return Forks([(s2, 0), (s, P("blk", 0))])

    def memset(I, s, x, line):
        s.user = dict(s.user, set=s.user.get("set", ()) + (tuple(x[:3]),))
        return x[0]
    st.newobj("blk", None)
    I = interp(M, {"malloc": malloc, "memset": memset, "llvm.memset": memset})
    res = []
    fin = I.run(st, "calloc", [a, b])
    full = a * b
    for s in fin:
        got = s.user.get("got")
        null = isc(s.ret) and s.ret == 0
        if full > mask(w):
            if not null:
                res.append(("memory is returned though the size requested does not fit", None))
        elif not null:
            if got is None or not isc(got) or got < full:
                res.append(("the block returned is smaller than requested", None))
            z = [x for x in s.user.get("set", ()) if isinstance(x[0], P) and x[0].off == 0 and x[1] == 0 and isc(x[2]) and full <= x[2] <= got]
            if not z:
                res.append(("the memory returned is not zeroed", None))
        elif full and got is None:
            res.append(("a null pointer is returned without trying to allocate", None))
    return res, len(fin)


def s06(R):
    deep = R.thorough
    R.rule("malloc, realloc and free are interpreted over heaps of blocks whose sizes are unknowns: every address and size is a linear form, compared in a "
           "polyhedral domain.  On every path the heap must stay a sequence of blocks with agreeing headers and footers, the other blocks and their contents "
           "must stay, and the result must be null only when nothing fits.")
    R.assume += ["the heap lies within the address space", "memory the system provides directly follows the heap"]
    files = ["malloc.c", "free.c", "realloc.c"]
    items = []
    mods = {}
    for cfg, names in clib.variants(files, ["linux", "macos", "dpmi", "small"]):
        R.count("library variants")
        extra = ["dpmi.c"] if cfg == "dpmi" else []
        M = clib.load(cfg, files + extra)
        mods[cfg] = M
        Q = reqs(M)
        few = [q for q in Q if q[0] == "0" or "*m+1" in q[0] and len(q[0].split("+")[1]) <= 2][:4]
        N = 5 if deep else 4
        for n in range(1, N + 1):
            for flags in itertools.product((False, True), repeat=n):
                for qi, q in enumerate(Q):
                    if n <= 3 or deep or q in few:
                        items.append((cfg, "malloc", (flags, qi)))
                for i in range(n):
                    if flags[i]:
                        items.append((cfg, "free", (flags, i)))
                        for qi, q in enumerate(Q):
                            if n <= 2 or (deep and n <= 4) or (n == 3 and q in few):
                                items.append((cfg, "realloc", (flags, i, qi)))
                if n <= 2:
                    for qi, q in enumerate(Q):
                        items.append((cfg, "realloc", (flags, None, qi)))
        if cfg != "macos":
            for j in range(0, 4 * M.pw // 8):
                items.append((cfg, "init", (j, ())))
            if cfg == "linux":
                for fl in ((0,), (1,), (2,), (0, 1)):
                    items.append((cfg, "init", (3, fl)))
    cm = {}
    for cfg, names in clib.variants(["calloc.c"]):
        M = cm[cfg] = clib.load(cfg, ["calloc.c"])
        top = mask(M.pw)
        vs = {0, 1, 2, 3, 7, 16, 255, 256, top, top // 2, top // 2 + 1, 1 << (M.pw // 2), (1 << (M.pw // 2)) - 1, (1 << (M.pw // 2)) + 1, top // 3, top // 3 + 1, top // 7, top // 7 + 1}
        for a in sorted(vs):
            for b in sorted(vs):
                items.append((cfg, "calloc", (a, b)))

    def work(k):
        cfg, kind, x = items[k]
        if kind == "calloc":
            return do_calloc(cm[cfg], *x)
        M = mods[cfg]
        if kind == "init":
            return do_init(M, cfg, *x)
        if kind == "malloc":
            return do_malloc(M, x[0], reqs(M)[x[1]])
        if kind == "free":
            return do_free(M, *x)
        return do_realloc(M, x[0], x[1], reqs(M)[x[2]])
    for (cfg, kind, x), (bad, n) in zip(items, par.pmap(work, range(len(items)), chunk=8)):
        M = cm[cfg] if kind == "calloc" else mods[cfg]
        R.count("heap states and calls")
        R.count("paths", n)
        fn = "malloc" if kind == "init" else kind
        if kind == "malloc":
            d = "malloc(%s) on a heap %s" % (reqs(M)[x[1]][0], nm(x[0]))
        elif kind == "free":
            d = "free(block %d) on a heap %s" % (x[1] + 1, nm(x[0]))
        elif kind == "realloc":
            d = "realloc(%s, %s) on a heap %s" % ("null" if x[1] is None else "block %d" % (x[1] + 1), reqs(M)[x[2]][0], nm(x[0]))
        elif kind == "init":
            d = "the first malloc() on memory at offset %d, failures %s" % x
        else:
            d = "calloc(%d, %d)" % x
        R.sample(d + " (%s)" % cfg)
        for msg, w in bad:
            R.violation("%s:%s:%s" % (cfg, kind, d), w or whereis(M, fn), "%s: %s (%s)" % (d, msg, cfg))
    R.need("heap states and calls", 500)
    R.need("paths", 800)
