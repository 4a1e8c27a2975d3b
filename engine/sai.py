"""Specialising abstract interpreter over the JSON form of LLVM IR.

Product domain: constants x Herbrand terms (terms.py) x symbolic pointers
(object, offset), with trace partitioning: at a branch whose condition is not
decided by the abstract state both successors are analysed, each under the
branch fact.  No solver is involved; facts are equalities and intervals.
"""
import json, sys
import terms as T
from terms import isc, Term, mask, sgn


class AnalysisError(Exception):
    """the analysis cannot give an answer (exit status other than 0/1)"""


class Split(AnalysisError):
    """the instruction needs the value of a term: the relation splits the state by value and the instruction is retried"""


def need(st, t, msg):
    rel = st.user.get("rel")
    if not isc(t) and getattr(rel, "splits", None) and rel.splits(t):
        e = Split(msg)
        e.term = t
        raise e
    raise AnalysisError(msg)


class P:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return isinstance(o, P) and o.obj == self.obj and (o.off is self.off or (isc(o.off) and o.off == self.off))

    def __hash__(self):
        return hash((self.obj, self.off if isc(self.off) else id(self.off)))

    def __repr__(self):
        return "&%s+%s" % (self.obj, self.off)


class F:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, F) and o.name == self.name

    def __hash__(self):
        return hash(("F", self.name))

    def __repr__(self):
        return "@" + self.name


PW = 64
K, R = 1, 0


class Func:
    pass


class Module:
    symaddr = {}

    def __init__(self, path):
        d = json.load(open(path)) if isinstance(path, str) else path
        self.ptrsize = d["ptrsize"]
        self.pw = self.ptrsize * 8
        self.globals = {g["name"]: g for g in d["globals"]}
        self.structs = {}
        for s in d["structs"]:
            if "enum" in s:
                continue
            for n in (s["name"], s["typedef"]):
                if n:
                    self.structs[n] = s
        self.enums = {}
        for s in d["structs"]:
            if "enum" in s:
                for n, v in s["vals"]:
                    self.enums[n] = v
        self.funcs = {}
        self.raw = {f["name"]: f for f in d["functions"]}
        self.sizeof = {}

    def field(self, st, name):
        for n, off, sz, tn in self.structs[st]["fields"]:
            if n == name:
                return off, sz
        raise AnalysisError("no field %s.%s" % (st, name))

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            raw = self.raw.get(name)
            if raw is None or raw["decl"]:
                return None
            f = self.funcs[name] = self._compile(raw)
        return f

    def width(self, ty):
        if ty.__class__ is int:
            return ty
        if ty == "p":
            return self.pw
        if ty == "f32":
            return 32
        if ty == "f64":
            return 64
        return 0

    def _op(self, o):
        if o.__class__ is int:
            return o
        k = o[0]
        if k == "v":
            return (R, o[1])
        if k == "a":
            return (R, -1 - o[1])
        if k == "i":
            v = o[2] if not isinstance(o[2], str) else int(o[2], 16)
            return (K, v & mask(o[1]))
        if k == "f":
            return (K, int(o[2], 16))
        if k == "g":
            return (K, P(o[1], o[2]))
        if k == "fn":
            return (K, F(o[1]))
        if k == "n":
            return (K, 0)
        if k == "ip":
            return (K, o[1] & mask(self.pw))
        if k == "u":
            return (K, 0)
        if k == "asm":
            return ("asm", o[1], o[2])
        if k == "md":
            return (K, 0)
        if k == "ce":
            if o[1] == "ptrtoint":
                return (K, ("p2i", self._op(o[3])[1], self.width(o[2])))
            if o[1] in ("bitcast", "addrspacecast"):
                return self._op(o[3])
        return ("bad", o)

    def _compile(self, raw):
        f = Func()
        f.name = raw["name"]
        f.params = raw["params"]
        f.pnames = raw.get("pnames", [])
        f.ret = raw["ret"]
        f.line = raw.get("line", 0)
        f.file = raw.get("file", "")
        f.vararg = raw["vararg"]
        f.blocks = []
        for b in raw["blocks"]:
            ins = []
            for i in b:
                ident, op, ty, line = i[:4]
                rest = i[4:]
                if op == "getelementptr":
                    rest = [self._op(rest[0]), rest[1], [(self._op(x[0]), x[1], x[2]) for x in rest[2]]]
                elif op == "call":
                    rest = [self._op(rest[0]), [self._op(x) for x in rest[1]], rest[2]]
                elif op == "phi":
                    rest = [{b: self._op(v) for v, b in rest[0]}, rest[1]]
                elif op == "switch":
                    rest = [self._op(rest[0]), rest[1], rest[2], rest[3]]
                elif op in ("icmp", "fcmp"):
                    rest = [rest[0], self._op(rest[1]), self._op(rest[2]), rest[3]]
                elif op == "br":
                    if len(rest) == 3:
                        rest = [self._op(rest[0]), rest[1], rest[2]]
                elif op == "store":
                    rest = [self._op(rest[0]), self._op(rest[1]), rest[2]]
                elif op in ("extractvalue", "insertvalue"):
                    rest = [self._op(x) for x in rest[:-1]] + [rest[-1]]
                elif op in ("sext", "zext", "trunc", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp",
                            "fptosi", "fptoui", "fpext", "fptrunc"):
                    rest = [self._op(rest[0]), rest[1]]
                elif op == "alloca":
                    rest = [rest[0], rest[1], self._op(rest[2]), rest[3]]
                elif op == "ret" and rest and rest[0].__class__ is not int and rest[0][0] == "u":
                    rest = [("undef",)]
                else:
                    rest = [self._op(x) for x in rest]
                ins.append((op, ident, ty, line, rest))
            f.blocks.append(ins)
        return f


class Obj:
    __slots__ = ("size", "default", "data", "owner", "name", "lazy")

    def __init__(self, name, size, default, owner):
        self.name = name
        self.size = size
        self.default = default  # "zero", "unk"
        self.data = {}
        self.owner = owner

    def copy(self, owner):
        o = Obj(self.name, self.size, self.default, owner)
        o.data = dict(self.data)
        return o


class Frame:
    __slots__ = ("fn", "regs", "bb", "ip", "prev", "retto", "callline", "acc")

    def __init__(self):
        self.acc = None

    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.regs = dict(self.regs)
        f.bb = self.bb
        f.ip = self.ip
        f.prev = self.prev
        f.retto = self.retto
        f.callline = self.callline
        f.acc = self.acc
        return f


class State:
    def __init__(self, M):
        self.M = M
        self.mem = {}
        self.frames = []
        self.out = []
        self.facts = {}
        self.ivals = {}   # term -> [slo, shi] signed interval
        self.eqs = {}
        self.nobj = 0
        self.ret = None
        self.status = None
        self.user = {}
        self.trace = []
        self.steps = 0

    def fork(self):
        s = State.__new__(State)
        s.M = self.M
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.out = list(self.out)
        s.facts = dict(self.facts)
        s.ivals = dict(self.ivals)
        s.eqs = dict(self.eqs)
        s.nobj = self.nobj
        s.ret = self.ret
        s.status = self.status
        s.user = dict(self.user)
        s.trace = list(self.trace)
        s.steps = self.steps
        # copy-on-write: everything becomes shared
        for o in s.mem.values():
            o.owner = None
        return s

    # ---- memory
    def newobj(self, name, size, default="unk"):
        self.nobj += 1
        oid = "%s#%d" % (name, self.nobj)
        self.mem[oid] = Obj(oid, size, default, self)
        return P(oid, 0)

    def obj(self, oid):
        o = self.mem.get(oid)
        if o is None:
            g = self.M.globals.get(oid)
            if g is None:
                raise AnalysisError("unknown object %s" % (oid,))
            o = Obj(oid, g["size"], "zero" if not g["decl"] else "unk", self)
            if "str" in g:
                b = bytes.fromhex(g["str"])
                for i, c in enumerate(b):
                    o.data[i] = (1, c)
            for off, k, v in g.get("init", ()):
                if k[0] == "i":
                    n = int(k[1:]) // 8
                    o.data[off] = (n, int(v) & mask(n * 8))
                elif k[0] == "f":
                    n = int(k[1:]) // 8
                    o.data[off] = (n, int(v, 16))
                else:
                    n = int(k[1:]) // 8
                    o.data[off] = (n, self.const(json.loads(v)))
            self.mem[oid] = o
        return o

    def const(self, c):
        o = self.M._op(c)
        if o[0] != K:
            raise AnalysisError("constant %r" % (c,))
        return self.kval(o[1])

    def kval(self, v):
        if v.__class__ is tuple and v[0] == "p2i":
            return p2i(self.M, self.kval(v[1]), v[2])
        return v

    def wobj(self, oid):
        o = self.obj(oid)
        if o.owner is not self:
            o = o.copy(self)
            self.mem[oid] = o
        return o

    def load(self, p, n, what="load"):
        """n bytes"""
        if isinstance(p, Term):
            p = i2p(self.M, p)
        if not isinstance(p, P):
            if "ram" in self.user:
                return self.user["ram"].load(self, p, n)
            raise AnalysisError("%s through non-pointer %r" % (what, p))
        o = self.obj(p.obj)
        off = p.off
        if not isc(off):
            return self.symload(p, n)
        if off >> (self.M.pw - 1):
            off -= 1 << self.M.pw
        if off < 0 or (o.size is not None and off + n > o.size):
            raise AnalysisError("out of bounds %s %s+%d size %s" % (what, p.obj, off, o.size))
        e = o.data.get(off)
        if e is not None and e[0] == n:
            return e[1]
        # assemble from bytes
        return self._assemble(o, off, n)

    def _byte(self, o, off):
        e = o.data.get(off)
        if e is not None:
            if e[0] == 1:
                return e[1]
            return self._bits(e[1], e[0], 0)
        for k in (1, 2, 3, 4, 5, 6, 7):
            e = o.data.get(off - k)
            if e is not None and e[0] > k:
                return self._bits(e[1], e[0], k)
        return None

    def _bits(self, v, n, k):
        if isinstance(v, (P, F)):
            v = p2i(self.M, v, n * 8)
        return T.ext(n * 8, v, k * 8, 8)

    def _assemble(self, o, off, n):
        bs = [self._byte(o, off + i) for i in range(n)]
        if all(b is None for b in bs):
            if o.default == "zero":
                return 0
            f = getattr(self, "lazyinit", None)
            v = None
            if callable(o.default):
                v = o.default(self, o, off, n)
            if v is None:
                v = T.sym("%s[%d:%d]" % (o.name, off, n), n * 8)
            o.data[off] = (n, v)
            return v
        for i, b in enumerate(bs):
            if b is None:
                if o.default == "zero":
                    bs[i] = 0
                elif callable(o.default):
                    bs[i] = o.default(self, o, off + i, 1)
                else:
                    bs[i] = T.sym("%s[%d:1]" % (o.name, off + i), 8)
        r = T.cat([(b, 8) for b in reversed(bs)])
        return r

    def symload(self, p, n):
        h = self.user.get("symload")
        if h:
            v = h(self, p, n)
            if v is not None:
                return v
        need(self, p.off, "load at symbolic offset %s+%s" % (p.obj, p.off))

    def store(self, p, n, v):
        if isinstance(p, Term):
            p = i2p(self.M, p)
        if not isinstance(p, P):
            if "ram" in self.user:
                return self.user["ram"].store(self, p, n, v)
            raise AnalysisError("store through non-pointer %r" % (p,))
        if not isc(p.off):
            h = self.user.get("symstore")
            if h and h(self, p, n, v):
                return
            need(self, p.off, "store at symbolic offset %s+%s" % (p.obj, p.off))
        o = self.wobj(p.obj)
        off = p.off
        if off >> (self.M.pw - 1):
            off -= 1 << self.M.pw
        if off < 0 or (o.size is not None and off + n > o.size):
            raise AnalysisError("out of bounds store %s+%d size %s" % (p.obj, off, o.size))
        d = o.data
        e = d.get(off)
        if e is None or e[0] != n:
            # split overlapping entries
            for a in range(off - 7, off + n):
                e = d.get(a)
                if e is not None and a + e[0] > off and a < off + n:
                    del d[a]
                    for i in range(e[0]):
                        if not (off <= a + i < off + n):
                            d[a + i] = (1, self._bits(e[1], e[0], i))
        d[off] = (n, v)

    # convenience
    def gset(self, name, v, n=4, off=0):
        self.store(P(name, off), n, v if not isc(v) else v & mask(n * 8))

    def gget(self, name, n=4, off=0):
        return self.load(P(name, off), n)

    def cstr(self, p):
        out = bytearray()
        if isinstance(p, Term):
            p = i2p(self.M, p)
        off = p.off
        while True:
            c = self.load(P(p.obj, off), 1)
            if not isc(c) and hasattr(self.user.get("rel"), "conc"):
                c = self.user["rel"].conc(c)
            if not isc(c):
                need(self, c, "symbolic string")
            if c == 0:
                return out.decode("latin1")
            out.append(c)
            off += 1

    def putstr(self, p, s):
        for i, c in enumerate(s.encode("latin1") + b"\0"):
            self.store(P(p.obj, p.off + i), 1, c)

    # ---- facts
    def assume(self, c, val):
        """record that 1-bit c has value val; False if contradictory"""
        if isc(c):
            return c == val
        if c.op == "not":
            return self.assume(c.args[0], 1 - val)
        if c in self.facts:
            return self.facts[c] == val
        self.facts[c] = val
        if c.op == "and" and val == 1:
            return all(self.assume(x, 1) for x in c.args)
        if c.op == "or" and val == 0:
            return all(self.assume(x, 0) for x in c.args)
        if "rel" in self.user and (c.op == "cmp" or getattr(self.user["rel"], "anyop", 0)) and not self.user["rel"].refine(self, c, val):
            return False
        if c.op == "cmp":
            pred, a, b, w = c.args
            if pred == "eq" and val == 1:
                if isc(b) and not isc(a):
                    self.eqs[a] = b
                    if a.op == "ext" and a.args[1] == 0 and a.args[0].op == "sym":
                        s_ = a.args[0]
                        self.eqs[s_] = T.cat([(T.ext(s_.w, s_, a.w, s_.w - a.w), s_.w - a.w), (b, a.w)])
                    iv = self.ivals.get(a)
                    if iv and not (iv[0] <= sgn(b, w) <= iv[1]):
                        return False
                    self.ivals[a] = (sgn(b, w), sgn(b, w))
            elif pred == "eq":
                iv = self.ivals.get(a) if not isc(a) and isc(b) else None
                if iv:
                    k = sgn(b, w)
                    if iv[0] == k or iv[1] == k:
                        iv = (iv[0] + (iv[0] == k), iv[1] - (iv[1] == k))
                        self.ivals[a] = iv
                        if iv[0] > iv[1]:
                            return False
            elif pred == "slt":
                if isc(b) and not isc(a):
                    lo, hi = self.ival(a, w)
                    k = sgn(b, w)
                    lo, hi = (lo, min(hi, k - 1)) if val else (max(lo, k), hi)
                    self.ivals[a] = (lo, hi)
                    if lo > hi:
                        return False
                elif isc(a) and not isc(b):
                    lo, hi = self.ival(b, w)
                    k = sgn(a, w)
                    lo, hi = (max(lo, k + 1), hi) if val else (lo, min(hi, k))
                    self.ivals[b] = (lo, hi)
                    if lo > hi:
                        return False
            elif pred == "ult":
                if isc(b) and not isc(a) and sgn(b, w) >= 0:
                    lo, hi = self.ival(a, w)
                    if val:
                        lo, hi = max(lo, 0), min(hi, b - 1)
                    elif lo >= 0:
                        lo = max(lo, b)
                    self.ivals[a] = (lo, hi)
                    if lo > hi:
                        return False
                elif isc(a) and not isc(b):
                    lo, hi = self.ival(b, w)
                    if val and lo >= 0:
                        lo = max(lo, a + 1)
                    elif not val and sgn(a, w) >= 0:
                        lo, hi = max(lo, 0), min(hi, a)
                    self.ivals[b] = (lo, hi)
                    if lo > hi:
                        return False
        return True

    def ival(self, t, w):
        if isc(t):
            return sgn(t, w), sgn(t, w)
        r = self.ivals.get(t)
        full = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if r is not None:
            return r
        if t.op == "cat" and t.args[0][0] == 0:
            k = w - t.args[0][1]
            lo, hi = 0, (1 << k) - 1
            if len(t.args) == 2 and not isc(t.args[1][0]):
                l2, h2 = self.ival(t.args[1][0], k)
                if l2 >= 0:
                    lo, hi = l2, h2
            return lo, hi
        if t.op == "sext":
            return self.ival(t.args[0], t.args[0].w)
        if t.op in ("udiv", "urem") and isc(t.args[1]) and t.args[1]:
            lo, hi = self.ival(t.args[0], w)
            c = t.args[1]
            if lo >= 0:
                return (lo // c, hi // c) if t.op == "udiv" else (0, min(hi, c - 1))
            if t.op == "urem" or c > 1:
                return 0, min(c - 1 if t.op == "urem" else mask(w) // c, full[1])
        if t.op == "lin":
            lo = hi = sgn(t.args[1], w)
            for a, k in t.args[0]:
                k = sgn(k, w)
                l, h = self.ival(a, w)
                lo += min(l * k, h * k)
                hi += max(l * k, h * k)
            if lo < full[0] or hi > full[1]:
                k = (lo - full[0]) >> w << w        # the sum is taken modulo 2**w
                lo, hi = lo - k, hi - k
                if hi > full[1]:
                    return full
            return lo, hi
        if t.op == "ite":
            a, b = self.ival(t.args[1], w), self.ival(t.args[2], w)
            return min(a[0], b[0]), max(a[1], b[1])
        if t.op == "ext" and t.args[1] == 0:
            l, h = self.ival(t.args[0], t.args[0].w)
            if l >= full[0] and h <= full[1]:
                return l, h
        return full

    def decide(self, c):
        """0/1 or None"""
        if isc(c):
            return c
        if c.op == "not":
            r = self.decide(c.args[0])
            return None if r is None else 1 - r
        r = self.facts.get(c)
        if r is not None:
            return r
        if c.op == "cmp":
            pred, a, b, w = c.args
            la, ha = self.ival(a, w)
            lb, hb = self.ival(b, w)
            if pred == "eq":
                if ha < lb or hb < la:
                    return 0
                if la == ha == lb == hb:
                    return 1
            elif pred == "slt":
                if ha < lb:
                    return 1
                if la >= hb:
                    return 0
            elif pred == "ult":
                if la >= 0 and lb >= 0:
                    if ha < lb:
                        return 1
                    if la >= hb:
                        return 0
                elif la >= 0 and hb < 0:
                    return 1
                elif ha < 0 and lb >= 0:
                    return 0
            if "rel" in self.user:
                r = self.user["rel"].decide(self, c)
                if r is not None:
                    return r
        elif c.op in ("and", "or"):
            rs = [self.decide(x) for x in c.args]
            z = 0 if c.op == "and" else 1
            if z in rs:
                return z
            if all(x == 1 - z for x in rs):
                return 1 - z
        elif c.op == "ite":
            r = self.decide(c.args[0])
            if r is not None:
                return self.decide(c.args[1] if r else c.args[2])
        elif "rel" in self.user and getattr(self.user["rel"], "anyop", 0):
            r = self.user["rel"].decide(self, c)
            if r is not None:
                return r
        if self.eqs:
            c2 = T.subst(c, self.eqs)
            if c2 is not c:
                return self.decide(c2)
        return None


def p2i(M, v, w):
    if isinstance(v, P):
        b = M.symaddr[v.obj] if v.obj in M.symaddr else T.sym("&" + str(v.obj), M.pw)
        r = T.add(M.pw, b, v.off)
        return T.trunc(M.pw, r, w) if w < M.pw else T.zext(M.pw, r, w)
    if isinstance(v, F):
        return T.trunc(M.pw, T.sym("&@" + v.name, M.pw), w)
    if isc(v):
        return v & mask(w)
    return T.trunc(v.w, v, w) if v.w > w else T.zext(v.w, v, w)


def i2p(M, v):
    if isinstance(v, (P, F)):
        return v
    if isc(v):
        return v
    if v.op == "sym":
        n = v.args[0]
        if n.startswith("&@"):
            return F(n[2:])
        if n.startswith("&"):
            return P(n[1:], 0)
    if v.op == "lin":
        for a, k in v.args[0]:
            if k == 1 and a.op == "sym" and a.args[0].startswith("&"):
                return P(a.args[0][1:], T.sub(M.pw, v, a))
    return v


class Interp:
    def __init__(self, M, hooks=None, maxsteps=2000000, maxstates=4000, maxdepth=400):
        self.M = M
        self.hooks = dict(LIB)
        if hooks:
            self.hooks.update(hooks)
        self.maxsteps = maxsteps
        self.maxstates = maxstates
        self.recover = None
        self.varargs = None
        self.maxdepth = maxdepth
        self.covered = set()
        self.onfork = None

    def call(self, st, name, args):
        f = self.M.func(name)
        if f is None:
            raise AnalysisError("function %s is not defined (anchor vanished)" % name)
        fr = Frame()
        fr.fn = f
        fr.regs = {-1 - i: a for i, a in enumerate(args)}
        fr.bb = 0
        fr.ip = 0
        fr.prev = None
        fr.retto = None
        fr.callline = 0
        st.frames.append(fr)
        return self

    def run(self, st, name, args):
        """analyse a call; returns the list of final states"""
        self.call(st, name, args)
        return self.resume(st, name)

    def resume(self, st, name="resumed analysis"):
        """continue a stopped state"""
        work = [st]
        done = []
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > self.maxstates:
                raise AnalysisError("too many partitions in %s" % name)
            try:
                succ = self.step(s)
            except Split as e:
                work.extend(s.user["rel"].splitstate(s, e.term))
                continue
            except AnalysisError as e:
                if not self.recover or not self.recover(s, e):
                    e.st = s
                    raise
                continue
            if succ is None:
                done.append(s)
            else:
                work.extend(succ)
        return done

    def step(self, st):
        """run until termination (None) or fork (list of states)"""
        M = self.M
        while True:
            fr = st.frames[-1]
            fn = fr.fn
            regs = fr.regs
            blk = fn.blocks[fr.bb]
            if fr.ip == 0:
                self.covered.add((fn.name, fr.bb))
                # phis
                if blk and blk[0][0] == "phi":
                    vals = []
                    k = 0
                    for ins in blk:
                        if ins[0] != "phi":
                            break
                        o = ins[4][0][fr.prev]
                        vals.append((ins[1], regs[o[1]] if o[0] == R else self.k(st, o)))
                        k += 1
                    for i, v in vals:
                        regs[i] = v
                    fr.ip = k
            adv = False
            while not adv:
                ins = blk[fr.ip]
                op, ident, ty, line, a = ins
                st.steps += 1
                if st.steps > self.maxsteps:
                    raise AnalysisError("step budget exceeded in %s:%d (a loop does not end)" % (fn.name, line))
                if op == "load":
                    p = a[0]
                    p = regs[p[1]] if p[0] == R else self.k(st, p)
                    w = M.width(ty)
                    v = st.load(p, (w + 7) // 8, "load at %s:%d" % (fn.name, line))
                    if ty == "p":
                        v = i2p(M, v)
                    elif w % 8 and not isinstance(v, (P, F)):
                        v = T.trunc((w + 7) // 8 * 8, v, w)
                    elif ty != "p" and isinstance(v, (P, F)):
                        v = p2i(M, v, w)
                    regs[ident] = v
                elif op == "store":
                    v, p, vt = a
                    v = regs[v[1]] if v[0] == R else self.k(st, v)
                    p = regs[p[1]] if p[0] == R else self.k(st, p)
                    w = M.width(vt)
                    if w % 8:
                        v = T.zext(w, v, (w + 7) // 8 * 8)
                    st.store(p, (w + 7) // 8, v)
                elif op == "getelementptr":
                    b = a[0]
                    b = regs[b[1]] if b[0] == R else self.k(st, b)
                    off = a[1] & mask(M.pw)
                    for o, sc, oty in a[2]:
                        v = regs[o[1]] if o[0] == R else self.k(st, o)
                        iw = oty
                        if isinstance(v, (P, F)):
                            v = p2i(M, v, iw)
                        if iw < M.pw:
                            v = T.sext(iw, v, M.pw)
                        off = T.add(M.pw, off, T.mulc(M.pw, v, sc))
                    regs[ident] = padd(M, b, off)
                elif op == "icmp":
                    pred, x, y, oty = a
                    x = regs[x[1]] if x[0] == R else self.k(st, x)
                    y = regs[y[1]] if y[0] == R else self.k(st, y)
                    regs[ident] = self.icmp(pred, x, y, oty)
                elif op == "br":
                    if len(a) == 1:
                        fr.prev, fr.bb, fr.ip = fr.bb, a[0], 0
                    else:
                        c = a[0]
                        c = regs[c[1]] if c[0] == R else self.k(st, c)
                        d = st.decide(c)
                        if d is None:
                            return self.fork(st, c, a[1], a[2], line)
                        fr.prev, fr.bb, fr.ip = fr.bb, a[1] if d else a[2], 0
                    adv = True
                    continue
                elif op == "switch":
                    c = a[0]
                    c = regs[c[1]] if c[0] == R else self.k(st, c)
                    w = a[3]
                    if not isc(c):
                        if isinstance(c, (P, F)):
                            raise AnalysisError("switch on pointer")
                        c2 = T.subst(c, st.eqs) if st.eqs else c
                        if isc(c2):
                            c = c2
                    if isc(c):
                        s = sgn(c, w)
                        t = a[1]
                        for v, b in a[2]:
                            if v == s:
                                t = b
                                break
                        fr.prev, fr.bb, fr.ip = fr.bb, t, 0
                        adv = True
                        continue
                    return self.forksw(st, c, w, a, line)
                elif op == "call":
                    r = self.docall(st, fr, ident, ty, line, a)
                    if r is not None:
                        if r == "frame":
                            adv = True
                            continue
                        if r == "end":
                            return None
                        return r
                elif op == "ret":
                    v = None
                    if a:
                        v = a[0]
                        if v[0] == "undef":
                            v = fr.acc if fr.acc is not None else 0     # what inline assembly left in the accumulator
                        else:
                            v = regs[v[1]] if v[0] == R else self.k(st, v)
                    st.frames.pop()
                    if fr.retto is None:
                        st.ret = v
                        st.status = st.status or "ret"
                        return None
                    cfr = st.frames[-1]
                    cfr.regs[fr.retto] = v
                    adv = True
                    continue
                elif op == "alloca":
                    n = a[0]
                    if n < 0:
                        c = a[2]
                        c = regs[c[1]] if c[0] == R else self.k(st, c)
                        if not isc(c):
                            raise AnalysisError("alloca")
                        n = a[3] * c
                    va = self.varargs
                    if va is not None and va[0](fn, a[1]):
                        regs[ident] = st.newobj(fn.name + "." + a[1], va[1], va[2])
                    else:
                        regs[ident] = st.newobj(fn.name + "." + a[1], n, "unk")
                elif op in BIN:
                    x, y = a
                    x = regs[x[1]] if x[0] == R else self.k(st, x)
                    y = regs[y[1]] if y[0] == R else self.k(st, y)
                    if isinstance(x, (P, F)):
                        x = p2i(M, x, ty)
                    if isinstance(y, (P, F)):
                        y = p2i(M, y, ty)
                    if op in ("sdiv", "udiv", "srem", "urem") and isc(y) and y == 0:
                        raise AnalysisError("division by zero at %s:%d" % (fn.name, line))
                    regs[ident] = BIN[op](ty, x, y)
                elif op in ("sext", "zext", "trunc"):
                    x = a[0]
                    x = regs[x[1]] if x[0] == R else self.k(st, x)
                    fw = a[1]
                    if isinstance(x, (P, F)):
                        x = p2i(M, x, fw)
                    elif fw == 1 and x.__class__ is Term:
                        k = st.decide(x)
                        if k is not None:
                            x = k
                    if op == "trunc":
                        regs[ident] = T.ext(fw, x, 0, ty)
                    elif op == "sext":
                        regs[ident] = T.sext(fw, x, ty)
                    else:
                        regs[ident] = T.zext(fw, x, ty)
                elif op == "select":
                    c, x, y = a
                    c = regs[c[1]] if c[0] == R else self.k(st, c)
                    x = regs[x[1]] if x[0] == R else self.k(st, x)
                    y = regs[y[1]] if y[0] == R else self.k(st, y)
                    d = st.decide(c)
                    if d is None:
                        if isinstance(x, (P, F)) or isinstance(y, (P, F)):
                            s2 = st.fork()
                            res = []
                            if st.assume(c, 1):
                                res.append(st)
                            if s2.assume(c, 0):
                                res.append(s2)
                            return res  # re-executes the select, now decided
                        regs[ident] = T.ite(M.width(ty), c, x, y)
                    else:
                        regs[ident] = x if d else y
                elif op == "phi":
                    raise AnalysisError("phi position")
                elif op in ("ptrtoint",):
                    x = a[0]
                    x = regs[x[1]] if x[0] == R else self.k(st, x)
                    regs[ident] = p2i(M, x, ty)
                elif op == "inttoptr":
                    x = a[0]
                    x = regs[x[1]] if x[0] == R else self.k(st, x)
                    if not isinstance(x, (P, F)):
                        x = T.zext(a[1], x, M.pw) if a[1] < M.pw else x
                    regs[ident] = i2p(M, x)
                elif op in ("bitcast", "freeze", "addrspacecast"):
                    x = a[0]
                    regs[ident] = regs[x[1]] if x[0] == R else self.k(st, x)
                elif op == "unreachable":
                    st.status = "unreachable"
                    return None
                elif op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg"):
                    xs = [regs[x[1]] if x[0] == R else self.k(st, x) for x in a]
                    regs[ident] = T.fn(op, M.width(ty), *xs)
                elif op in ("sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
                    x = a[0]
                    x = regs[x[1]] if x[0] == R else self.k(st, x)
                    regs[ident] = T.fn(op, M.width(ty), x)
                elif op == "fcmp":
                    x = regs[a[1][1]] if a[1][0] == R else self.k(st, a[1])
                    y = regs[a[2][1]] if a[2][0] == R else self.k(st, a[2])
                    regs[ident] = T.fn("fcmp." + a[0], 1, x, y)
                else:
                    raise AnalysisError("unsupported IR op %s at %s:%d" % (op, fn.name, line))
                fr.ip += 1

    def k(self, st, o):
        if o[0] != K:
            raise AnalysisError("unsupported operand %r" % (o,))
        v = o[1]
        if v.__class__ is tuple:
            return st.kval(v)
        return v

    def icmp(self, pred, x, y, oty):
        M = self.M
        w = M.width(oty)
        px, py = isinstance(x, (P, F)), isinstance(y, (P, F))
        if px or py:
            if px and py and isinstance(x, P) and isinstance(y, P) and x.obj == y.obj:
                return T.cmp_(pred, w, x.off, y.off)
            if pred in ("eq", "ne"):
                if px and py:
                    return int((x == y) == (pred == "eq"))
                o = y if px else x
                if isc(o):
                    return int(pred == "ne")
            x = p2i(M, x, w)
            y = p2i(M, y, w)
        return T.cmp_(pred, w, x, y)

    def fork(self, st, c, t, f, line):
        fr = st.frames[-1]
        s2 = st.fork()
        f2 = s2.frames[-1]
        fr.prev, fr.bb, fr.ip = fr.bb, t, 0
        f2.prev, f2.bb, f2.ip = f2.bb, f, 0
        for o in st.mem.values():
            o.owner = None
        res = []
        if st.assume(c, 1):
            st.trace.append((fr.fn.name, line, c, 1))
            res.append(st)
        if s2.assume(c, 0):
            s2.trace.append((f2.fn.name, line, c, 0))
            res.append(s2)
        return res

    def forksw(self, st, c, w, a, line):
        res = []
        base = st
        for v, b in a[2]:
            cond = T.cmp_("eq", w, c, v & mask(w))
            d = base.decide(cond)
            if d == 0:
                continue
            s2 = base.fork()
            f2 = s2.frames[-1]
            f2.prev, f2.bb, f2.ip = f2.bb, b, 0
            if s2.assume(cond, 1):
                s2.trace.append((f2.fn.name, line, cond, 1))
                res.append(s2)
            if d == 1 or not base.assume(cond, 0):
                return res
        fr = base.frames[-1]
        for o in base.mem.values():
            o.owner = None
        fr.prev, fr.bb, fr.ip = fr.bb, a[1], 0
        res.append(base)
        return res

    def docall(self, st, fr, ident, ty, line, a):
        M = self.M
        tgt, args, atys = a
        regs = fr.regs
        if tgt[0] == "asm":
            h = self.hooks.get("<asm>")
            if not h:
                raise AnalysisError("inline asm at %s:%d" % (fr.fn.name, line))
            f = None
            name = "<asm>"
        else:
            f = regs[tgt[1]] if tgt[0] == R else self.k(st, tgt)
            if not isinstance(f, F):
                raise AnalysisError("indirect call %r at %s:%d" % (f, fr.fn.name, line))
            name = f.name
        vals = [regs[x[1]] if x[0] == R else self.k(st, x) for x in args]
        h = self.hooks.get(name)
        if h is None and name.startswith("llvm."):
            for k in LLVMI:
                if name.startswith(k):
                    h = LLVMI[k]
                    break
        if h is not None:
            r = h(self, st, vals, line)
            if r is END:
                return "end"
            if r.__class__ is Forks:
                out = []
                for s2, v in r.states:
                    f2 = s2.frames[-1]
                    f2.regs[ident] = v
                    f2.ip += 1
                    out.append(s2)
                return out
            if r is not CALL:
                regs[ident] = r
                return None
        fn = M.func(name)
        if fn is None:
            raise AnalysisError("call of external %s at %s:%d" % (name, fr.fn.name, line))
        if len(st.frames) > self.maxdepth:
            raise AnalysisError("recursion too deep at %s" % name)
        nf = Frame()
        nf.fn = fn
        nf.regs = {-1 - i: v for i, v in enumerate(vals)}
        nf.bb = 0
        nf.ip = 0
        nf.prev = None
        nf.retto = ident
        nf.callline = line
        fr.ip += 1
        st.frames.append(nf)
        return "frame"


END = object()
CALL = object()


def isfault(e):
    """a definite fault of the analysed program (bad access, endless loop), not a limit of the analysis"""
    m = str(e)
    return any(k in m for k in ("out of bounds", "null", "unknown object", "division by zero", "step budget exceeded", "through non-pointer 0"))


class Forks:
    def __init__(self, states):
        self.states = states


def padd(M, b, off):
    if isinstance(b, P):
        return P(b.obj, T.add(M.pw, b.off, off))
    if isinstance(b, F):
        return b
    r = T.add(M.pw, b, off)
    return i2p(M, r)


BIN = {
    "add": T.add, "sub": T.sub, "mul": T.mul, "udiv": T.udiv, "sdiv": T.sdiv, "urem": T.urem, "srem": T.srem,
    "and": T.and_, "or": T.or_, "xor": T.xor, "shl": T.shl, "lshr": T.lshr, "ashr": T.ashr,
}


# ---------------------------------------------------------------- library
def _cs(st, p):
    return st.cstr(p)


def h_strlen(I, st, a, line):
    return len(st.cstr(a[0]))


def h_strcmp(I, st, a, line):
    x, y = st.cstr(a[0]), st.cstr(a[1])
    return 0 if x == y else (1 if x > y else mask(32))


def h_strncmp(I, st, a, line):
    n = a[2]
    x, y = st.cstr(a[0])[:n], st.cstr(a[1])[:n]
    return 0 if x == y else (1 if x > y else mask(32))


def h_memcpy(I, st, a, line):
    d, s, n = a[:3]
    if not isc(n):
        need(st, n, "memcpy of unknown length at line %d" % line)
    copy(st, d, s, n)
    return d


def copy(st, d, s, n):
    if n == 0:
        return
    so = st.obj(s.obj)
    if not isc(s.off) or not isc(d.off):
        need(st, d.off if isc(s.off) else s.off, "copy at symbolic offset")
    ents = []
    i = 0
    while i < n:
        e = so.data.get(s.off + i)
        if e is not None and i + e[0] <= n:
            ents.append((i, e[0], e[1]))
            i += e[0]
        else:
            ents.append((i, 1, st.load(P(s.obj, s.off + i), 1)))
            i += 1
    for i, k, v in ents:
        st.store(P(d.obj, d.off + i), k, v)


def h_memset(I, st, a, line):
    d, c, n = a[:3]
    if not isc(n):
        raise AnalysisError("memset of unknown length at line %d" % line)
    c = T.trunc(c.w if not isc(c) else 32, c, 8) if not isc(c) else c & 255
    if n > 64 and c == 0 and d.off == 0 and st.obj(d.obj).size == n:
        o = st.wobj(d.obj)
        o.data = {}
        o.default = "zero"
        return d
    for i in range(n):
        st.store(P(d.obj, d.off + i), 1, c)
    return d


def h_strcpy(I, st, a, line):
    st.putstr(a[0], st.cstr(a[1]))
    return a[0]


def h_strcat(I, st, a, line):
    st.putstr(P(a[0].obj, a[0].off + len(st.cstr(a[0]))), st.cstr(a[1]))
    return a[0]


def h_strchr(I, st, a, line):
    s = st.cstr(a[0])
    c = a[1] & 255
    if c == 0:
        return P(a[0].obj, a[0].off + len(s))
    i = s.find(chr(c))
    return 0 if i < 0 else P(a[0].obj, a[0].off + i)


def h_strrchr(I, st, a, line):
    s = st.cstr(a[0])
    c = a[1] & 255
    i = s.rfind(chr(c)) if c else len(s)
    return 0 if i < 0 else P(a[0].obj, a[0].off + i)


def _ctype(fnc):
    def h(I, st, a, line):
        c = a[0]
        if not isc(c):
            raise AnalysisError("ctype on symbolic char")
        return int(fnc(c)) & mask(32)
    return h


def h_nop(I, st, a, line):
    return 0


def h_calloc(I, st, a, line):
    return st.newobj("heap", a[0] * a[1] if isc(a[0]) and isc(a[1]) else None, "zero")


def h_malloc(I, st, a, line):
    return st.newobj("heap", a[0] if isc(a[0]) else None, "unk")


LIB = {
    "strlen": h_strlen, "strcmp": h_strcmp, "strncmp": h_strncmp, "memcpy": h_memcpy, "memmove": h_memcpy,
    "memset": h_memset, "strcpy": h_strcpy, "strcat": h_strcat, "strchr": h_strchr, "strrchr": h_strrchr,
    "isdigit": _ctype(lambda c: 48 <= c <= 57), "isalpha": _ctype(lambda c: chr(c & 255).isalpha() and c < 128),
    "isalnum": _ctype(lambda c: c < 128 and chr(c & 255).isalnum()),
    "isspace": _ctype(lambda c: c in (32, 9, 10, 11, 12, 13)),
    "toupper": _ctype(lambda c: c - 32 if 97 <= c <= 122 else c),
    "tolower": _ctype(lambda c: c + 32 if 65 <= c <= 90 else c),
    "abs": lambda I, st, a, line: abs(sgn(a[0], 32)) if isc(a[0]) else T.ite(32, T.cmp_("slt", 32, a[0], 0), T.neg(32, a[0]), a[0]),
    "free": h_nop, "calloc": h_calloc, "malloc": h_malloc,
}
LLVMI = {
    "llvm.dbg": h_nop, "llvm.lifetime": h_nop, "llvm.memcpy": h_memcpy, "llvm.memmove": h_memcpy,
    "llvm.memset": h_memset, "llvm.stacksave": h_nop, "llvm.stackrestore": h_nop,
    "llvm.umax": lambda I, st, a, line: T.ite(32, T.cmp_("ult", 32, a[0], a[1]), a[1], a[0]),
}
