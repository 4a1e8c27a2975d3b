"""C library: string, memory and character functions."""
import itertools
import terms as T, clib, par
from terms import isc, mask
from sai import AnalysisError, P, State, isfault
from clib import Buf, byt, nz, string, explore

FILES = ["memchr.c", "memcmp.c", "memcpy.c", "memmove.c", "memset.c", "strcat.c", "strchr.c", "strcmp.c", "strcoll.c", "strcpy.c", "strcspn.c",
         "strlen.c", "strncat.c", "strncmp.c", "strncpy.c", "strpbrk.c", "strrchr.c", "strspn.c", "strstr.c", "strtok.c", "strxfrm.c"]
CT = ["ctype.c"] + ["is%s.c" % x for x in "alnum alpha blank cntrl digit graph lower print punct space upper xdigit".split()] + ["tolower.c", "toupper.c"]


def eq(a, b):
    return T.cmp_("eq", 8, a, b)


def search(ask, B, n, m):
    s, t = B[0].init[1:], B[1].init[1:m + 1]
    for i in range(n - m + 1):
        if all(ask(eq(s[i + j], t[j])) for j in range(m)):
            return B[0].at(1 + i), {}
    return 0, {}


class Case:
    def __init__(self, fn, label, build, spec):
        """build(st, W) -> (bufs, args); spec(ask, bufs, args) -> (expected return, {buf: bytes})"""
        self.fn, self.label, self.build, self.spec = fn, label, build, spec


def first(ask, a, b, n):
    """index of the first difference, or of the common terminator, None if the first n are equal"""
    for i in range(n):
        if not ask(eq(a[i], b[i])):
            return i
        if ask(eq(a[i], 0)):
            return None
    return None


def order(ask, a, b, n, stop=True):
    for i in range(n):
        if not ask(eq(a[i], b[i])):
            return ("cmp", a[i], b[i])
        if stop and ask(eq(a[i], 0)):
            break
    return ("cmp", 0, 0)


def cases(deep):
    N = 5 if deep else 4
    out = []

    def strb(name, n, pad=0, front=1):
        """string inside a larger object"""
        def mk(st):
            return Buf(st, name, [byt("%s<%d" % (name, i)) for i in range(front)] + string(st, name, n), front + n + 1 + pad)
        return mk, front

    def add(fn, label, build, spec):
        out.append(Case(fn, label, build, spec))

    def I(W, name="c"):
        return T.sym(name, W)
    for n in range(N + 1):
        def b(st, W, n=n):
            s = strb("s", n)[0](st)
            return [s], [s.at(1)]
        add("strlen", "n%d" % n, b, lambda ask, B, a, n=n: (n, {}))
        for fn in ("strchr", "strrchr"):
            def b(st, W, n=n):
                s = strb("s", n)[0](st)
                return [s], [s.at(1), I(W)]

            def sp(ask, B, a, n=n, fn=fn):
                c = T.ext(a[1].w, a[1], 0, 8)
                r = range(n + 1) if fn == "strchr" else range(n, -1, -1)
                for i in r:
                    if ask(eq(B[0].init[1 + i], c)):
                        return B[0].at(1 + i), {}
                return 0, {}
            add(fn, "n%d" % n, b, sp)

            def b0(st, W, n=n):
                s = strb("s", n)[0](st)
                return [s], [s.at(1), 0]
            add(fn, "n%d,nul" % n, b0, lambda ask, B, a, n=n: (B[0].at(1 + n), {}))
        for m in range(N + 1):
            def b(st, W, n=n, m=m):
                d, s = Buf(st, "d", [byt("d<")] + string(st, "d", n), n + m + 5), strb("s", m)[0](st)
                return [d, s], [d.at(1), s.at(1)]
            add("strcpy", "n%d,m%d" % (n, m), b, lambda ask, B, a, m=m: (B[0].at(1), {"d": [B[0].init[0]] + B[1].init[1:m + 2] + B[0].init[m + 2:]}))
            add("strcat", "n%d,m%d" % (n, m), b, lambda ask, B, a, n=n, m=m: (B[0].at(1), {"d": B[0].init[:n + 1] + B[1].init[1:m + 2] + B[0].init[n + m + 2:]}))
            for k in range(N + 2):
                def bk(st, W, n=n, m=m, k=k):
                    d, s = Buf(st, "d", [byt("d<")] + string(st, "d", n), n + max(m, k) + 5), Buf(st, "s", (string(st, "s", m) if m < k else string(st, "s", m)[:k]))
                    return [d, s], [d.at(1), s.at(0), k]
                # the source needs no terminator when k characters are read first
                def sc(ask, B, a, n=n, m=m, k=k):
                    t = B[1].init[:min(m, k)]
                    return B[0].at(1), {"d": (B[0].init[:n + 1] + t + [0] + B[0].init[n + 2 + len(t):])}
                add("strncat", "n%d,m%d,k%d" % (n, m, k), bk, sc)
                if n == 0:
                    def sc(ask, B, a, m=m, k=k):
                        t = (B[1].init[:min(m, k)] + [0] * k)[:k]
                        return B[0].at(1), {"d": [B[0].init[0]] + t + B[0].init[1 + k:]}
                    add("strncpy", "m%d,k%d" % (m, k), bk, sc)

                    def bx(st, W, m=m, k=k):
                        d, s = Buf(st, "d", [byt("d<")], k + 3), strb("s", m)[0](st)
                        return [d, s], [d.at(1), s.at(1), k]

                    def sx(ask, B, a, m=m, k=k):
                        if m < k:
                            return m, {"d": [B[0].init[0]] + B[1].init[1:m + 2] + B[0].init[m + 2:]}
                        return m, {"d": [B[0].init[0]] + [None] * k + B[0].init[1 + k:]}
                    add("strxfrm", "m%d,k%d" % (m, k), bx, sx)

            def b2(st, W, n=n, m=m):
                x, y = strb("x", n)[0](st), strb("y", m)[0](st)
                return [x, y], [x.at(1), y.at(1)]
            for fn in ("strcmp", "strcoll"):
                add(fn, "n%d,m%d" % (n, m), b2, lambda ask, B, a, n=n, m=m: (order(ask, B[0].init[1:], B[1].init[1:], min(n, m) + 1), {}))
            for k in range(N + 2):
                def bk(st, W, n=n, m=m, k=k):
                    x, y = (Buf(st, q, string(st, q, z)[:k if z >= k else z + 1]) for q, z in (("x", n), ("y", m)))
                    return [x, y], [x.at(0), y.at(0), k]
                add("strncmp", "n%d,m%d,k%d" % (n, m, k), bk, lambda ask, B, a, n=n, m=m, k=k: (order(ask, B[0].init, B[1].init, min(n + 1, m + 1, k)), {}))
            if m <= N - 1:
                for fn in ("strspn", "strcspn", "strpbrk"):
                    def sp(ask, B, a, n=n, m=m, fn=fn):
                        s, t = B[0].init[1:], B[1].init[1:m + 1]
                        i = 0
                        while i < n:
                            hit = any(ask(eq(s[i], x)) for x in t)
                            if hit != (fn == "strspn"):
                                break
                            i += 1
                        if fn == "strpbrk":
                            return (B[0].at(1 + i) if i < n else 0), {}
                        return i, {}
                    add(fn, "n%d,m%d" % (n, m), b2, sp)
            if m <= N - 1:
                add("strstr", "n%d,m%d" % (n, m), b2, lambda ask, B, a, n=n, m=m: search(ask, B, n, m))
        # memory
        def b(st, W, n=n):
            s = Buf(st, "s", [byt("s%d" % i) for i in range(n)], n)
            return [s], [s.at(0), I(W), n]

        def sp(ask, B, a, n=n):
            c = T.ext(a[1].w, a[1], 0, 8)
            for i in range(n):
                if ask(eq(B[0].init[i], c)):
                    return B[0].at(i), {}
            return 0, {}
        add("memchr", "n%d" % n, b, sp)

        def b(st, W, n=n):
            x, y = Buf(st, "x", [byt("x%d" % i) for i in range(n)], n), Buf(st, "y", [byt("y%d" % i) for i in range(n)], n)
            return [x, y], [x.at(0), y.at(0), n]
        add("memcmp", "n%d" % n, b, lambda ask, B, a, n=n: (order(ask, B[0].init, B[1].init, n, False), {}))
    # matches that overlap partial matches
    for n in range(N + 1, 9 if deep else 7):
        for m in range(2, 6 if deep else 5):
            def bl(st, W, n=n, m=m):
                x, y = strb("x", n)[0](st), strb("y", m)[0](st)
                return [x, y], [x.at(1), y.at(1)]
            add("strstr", "n%d,m%d" % (n, m), bl, lambda ask, B, a, n=n, m=m: search(ask, B, n, m))
    for n in range(0, 10 if deep else 8):
        def b(st, W, n=n):
            d = Buf(st, "d", [], n + 3)
            return [d], [d.at(1), I(W), n]
        add("memset", "n%d" % n, b, lambda ask, B, a, n=n: (B[0].at(1), {"d": [B[0].init[0]] + [T.ext(a[1].w, a[1], 0, 8)] * n + B[0].init[n + 1:]}))

        def b(st, W, n=n):
            d, s = Buf(st, "d", [], n + 3), Buf(st, "s", [], n)
            return [d, s], [d.at(1), s.at(0), n]
        for fn in ("memcpy", "memmove"):
            if fn == "memcpy":
                add(fn, "n%d" % n, b, lambda ask, B, a, n=n: (B[0].at(1), {"d": [B[0].init[0]] + B[1].init + B[0].init[n + 1:]}))
        for i, j in itertools.product(range(0, 5), repeat=2):
            def b(st, W, n=n, i=i, j=j):
                d = Buf(st, "d", [], n + 5)
                return [d], [d.at(i), d.at(j), n]
            add("memmove", "n%d,to%d,from%d" % (n, i, j), b,
                lambda ask, B, a, n=n, i=i, j=j: (B[0].at(i), {"d": B[0].init[:i] + B[0].init[j:j + n] + B[0].init[i + n:]}))
    return out


def tokens(deep):
    """strtok: sequences of calls until the string is used up, the delimiters changing between calls"""
    out = []
    N = 5 if deep else 4
    for n in range(N + 1):
        for ms in ([0], [1], [2], [1, 1], [1, 0], [2, 1]):
            out.append((n, ms))
    return out


def tokspec(ask, s, dels, ncalls):
    """[(token start or None)], final bytes"""
    s = list(s)
    pos = 0
    res = []
    for k in range(ncalls):
        d = dels[min(k, len(dels) - 1)]
        if pos is None:
            res.append(None)
            continue
        isd = lambda c: any(ask(eq(c, x)) for x in d)
        while not (isc(s[pos]) and s[pos] == 0) and isd(s[pos]):
            pos += 1
        if isc(s[pos]) and s[pos] == 0:
            res.append(None)
            pos = None
            continue
        st = pos
        while not (isc(s[pos]) and s[pos] == 0) and not isd(s[pos]):
            pos += 1
        if isc(s[pos]) and s[pos] == 0:
            pos = None
        else:
            s[pos] = 0
            pos += 1
        res.append(st)
    return res, s


def signof(st, r, W):
    """-1, 0, 1 or None"""
    if isc(r):
        v = T.sgn(r, W)
        return (v > 0) - (v < 0)
    if st.decide(T.cmp_("eq", W, r, 0)) == 1:
        return 0
    d = st.decide(T.cmp_("slt", W, r, 0))
    if d == 1:
        return -1
    if d == 0 and st.decide(T.cmp_("eq", W, r, 0)) == 0:
        return 1
    return None


def samesign(st, r, W, a, b):
    """does r order bytes a, b (unsigned)?"""
    if isc(a) and isc(b):
        return signof(st, clib.norm(st, r), W) == (a > b) - (a < b)
    if r is T.sub(W, T.zext(8, a, W), T.zext(8, b, W)):
        return True
    out = []
    for x, y in itertools.product([0, 1, 2, 0x30, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff], repeat=2):
        if isc(a) and x != a or isc(b) and y != b:
            continue
        if (x == y) or (not isc(a) and st.decide(eq(a, x)) == 0) or (not isc(b) and st.decide(eq(b, y)) == 0):
            continue
        s2 = st.fork()
        ok = (isc(a) or s2.assume(eq(a, x), 1)) and (isc(b) or s2.assume(eq(b, y), 1))
        if not ok:
            continue
        v = T.subst(r, {k: w for k, w in ((a, x), (b, y)) if not isc(k)}) if not isc(r) else r
        g = signof(s2, v, W)
        if g is None:
            raise AnalysisError("cannot decide the sign of %s" % (r,))
        if g != (x > y) - (x < y):
            return False
    return True


def describe(v, B):
    if isinstance(v, P):
        return "%s+%s" % (v.obj.split("#")[0], v.off)
    return str(v)


def run_case(M, c):
    """[(key, message, where)]"""
    W = 16 if M.config == "small" else 32
    st = State(M)
    I = clib.interp(M)
    B, args = c.build(st, W)
    bad = []
    try:
        res = I.run(st, c.fn, args)
    except AnalysisError as e:
        if not isfault(e):
            raise
        return [("fault", "%s: %s" % (c.label, e), clib.whereis(M, c.fn))], 1
    n = 0
    for s in res:
        for s2, (ret, mem) in explore(s, lambda ask: c.spec(ask, B, args)):
            n += 1
            got = s.ret
            if isinstance(got, T.Term):
                got = clib.i2p(M, got)
            if isinstance(ret, tuple):
                if not samesign(s2, got if not isinstance(got, P) else 1, W, ret[1], ret[2]):
                    bad.append(("result", "%s(%s): the result %s has the wrong sign for the bytes %s and %s" % (c.fn, c.label, describe(got, B), ret[1], ret[2]), clib.whereis(M, c.fn)))
            elif not (got == ret if isinstance(ret, P) or isinstance(got, P) else same(s2, got, ret, W)):
                bad.append(("result", "%s(%s) returns %s instead of %s" % (c.fn, c.label, describe(got, B), describe(ret, B)), clib.whereis(M, c.fn)))
            for b in B:
                want = mem.get(b.name, b.init)
                have = b.bytes(s2)
                for i, (x, y) in enumerate(zip(have, want)):
                    if y is not None and not same(s2, x, y, 8):
                        bad.append(("memory", "%s(%s): byte %d of %s becomes %s instead of %s" % (c.fn, c.label, i, b.name, x, y), clib.whereis(M, c.fn)))
                        break
    return bad[:3], n


def same(st, a, b, w):
    if isc(a) and isc(b):
        return a & mask(w) == b & mask(w)
    return a is b or st.decide(T.cmp_("eq", w, a, b)) == 1 or T.agree(a, b, st.facts.items())


def run_tok(M, n, ms):
    W = 16 if M.config == "small" else 32
    st0 = State(M)
    I = clib.interp(M)
    s = Buf(st0, "s", string(st0, "s", n))
    ds = [Buf(st0, "d%d" % i, string(st0, "d%d" % i, m)) for i, m in enumerate(ms)]
    ncalls = n // 2 + 3
    sts = [st0]
    st0.user = dict(st0.user, toks=())
    try:
        for k in range(ncalls):
            nxt = []
            for st in sts:
                st.status = None
                for r in I.run(st, "strtok", [s.at(0) if k == 0 else 0, ds[min(k, len(ds) - 1)].at(0)]):
                    r.user["toks"] = r.user["toks"] + (r.ret,)
                    nxt.append(r)
            sts = nxt
    except AnalysisError as e:
        if not isfault(e):
            raise
        return [("fault", "strtok on a string of %d characters: %s" % (n, e), clib.whereis(M, "strtok"))], 1
    bad = []
    cnt = 0
    for st in sts:
        for s2, (res, mem) in explore(st, lambda ask: tokspec(ask, s.init, [d.init[:-1] for d in ds], ncalls)):
            cnt += 1
            for k, (g, e) in enumerate(zip(st.user["toks"], res)):
                e2 = 0 if e is None else s.at(e)
                if g != e2:
                    bad.append(("result", "strtok: call %d returns %s instead of %s" % (k + 1, describe(g, 0), describe(e2, 0)), clib.whereis(M, "strtok")))
                    break
            for i, (x, y) in enumerate(zip(s.bytes(s2), mem)):
                if not same(s2, x, y, 8):
                    bad.append(("memory", "strtok: byte %d becomes %s instead of %s" % (i, x, y), clib.whereis(M, "strtok")))
                    break
            for d in ds:
                if any(not same(s2, x, y, 8) for x, y in zip(d.bytes(s2), d.init)):
                    bad.append(("memory", "strtok modifies the delimiters", clib.whereis(M, "strtok")))
    return bad[:3], cnt


# ---------------------------------------------------------------- characters
def ctspec(fn, c):
    if c < 0 or c > 127:
        r = {"tolower": c, "toupper": c}.get(fn)
        return r if r is not None else False
    ch = chr(c)
    return {"isalnum": lambda: ch.isalnum(), "isalpha": lambda: ch.isalpha(), "isblank": lambda: ch in " \t",
            "iscntrl": lambda: c < 32 or c == 127, "isdigit": lambda: ch in "0123456789", "isgraph": lambda: 33 <= c <= 126,
            "islower": lambda: "a" <= ch <= "z", "isprint": lambda: 32 <= c <= 126,
            "ispunct": lambda: 33 <= c <= 126 and not ch.isalnum(), "isspace": lambda: ch in " \t\n\v\f\r",
            "isupper": lambda: "A" <= ch <= "Z", "isxdigit": lambda: ch in "0123456789abcdefABCDEF",
            "tolower": lambda: ord(ch.lower()), "toupper": lambda: ord(ch.upper())}[fn]()


def run_ct(M, fn):
    W = 16 if M.config == "small" else 32
    bad = []
    for c in range(-1, 256):
        st = State(M)
        I = clib.interp(M)
        try:
            rs = I.run(st, fn, [c & mask(W)])
        except AnalysisError as e:
            if not isfault(e):
                raise
            bad.append(("fault", "%s(%d): %s" % (fn, c, e), clib.whereis(M, fn)))
            continue
        for r in rs:
            v = r.ret
            if not isc(v):
                raise AnalysisError("%s(%d) has the unknown result %s" % (fn, c, v))
            e = ctspec(fn, c)
            if (bool(v) != e) if isinstance(e, bool) else T.sgn(v, W) != e:
                bad.append(("class", "%s(%d) yields %d instead of %s" % (fn, c, T.sgn(v, W), e), clib.whereis(M, fn)))
    return bad, 257


def strings(R):
    deep = R.thorough
    R.rule("every path of the function over unknown bytes returns what C specifies and changes exactly the bytes C lets it change, touching no byte outside its operands")
    files = FILES + CT
    items = []
    for cfg, names in clib.variants(files):
        M = clib.load(cfg, files)
        for c in cases(deep):
            items.append(("case", cfg, c))
        for n, ms in tokens(deep):
            items.append(("tok", cfg, (n, ms)))
        for f in CT[1:]:
            items.append(("ct", cfg, f[:-2]))
        R.count("library variants")

    def work(i):
        k, cfg, x = items[i]
        M = clib.load(cfg, files)
        if k == "case":
            return x.fn, x.label, run_case(M, x)
        if k == "tok":
            return "strtok", "n%d,%s" % (x[0], x[1]), run_tok(M, *x)
        return x, "all", run_ct(M, x)
    for (k, cfg, _), (fn, label, (bad, n)) in zip(items, par.pmap(work, range(len(items)), chunk=16)):
        R.count("calls analysed")
        R.count("results compared", n)
        R.sample("%s(%s) [%s]" % (fn, label, cfg))
        for kind, msg, w in bad:
            R.violation("%s:%s:%s" % (cfg, fn, kind), w, "%s (%s)" % (msg, cfg))
    R.need("calls analysed", 1000)
    R.files = ()
