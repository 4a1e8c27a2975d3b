"""S07: buffered streams.  Histories of stream operations are analysed as a tree over a model of the system's file calls; every
result, the position and the final contents of the file are compared with what C's abstract stream gives."""
import terms as T
import clib
from clib import interp, whereis, Buf, byt
from sai import State, AnalysisError, P, F, Forks, isfault
from terms import isc, mask, sgn
import par

FILES = ["fopen.c", "fclose.c", "fflush.c", "fgetc.c", "fputc.c", "fillbuf.c", "flushbuf.c", "fread.c", "fwrite.c", "ungetc.c", "fseek.c", "ftell.c",
         "rewind.c", "setvbuf.c", "setbuf.c", "fgets.c", "fputs.c", "feof.c", "ferror.c", "clearerr.c", "fgetpos.c", "fsetpos.c", "stdio1.c", "stdio2.c",
         "stdin.c", "stdout.c", "stderr.c", "getc.c", "putc.c", "getchar.c", "putchar.c", "gets.c", "puts.c", "freopen.c"]
F16 = ["fseek16.c", "ftell16.c", "lngadd.c", "lngeq.c", "lngfs.c", "lngfu.c", "lngltz.c", "lngsl.c", "lngsub.c", "lngts.c", "lngtu.c", "lngul.c"]
UNIX = ("linux", "macos")


def files(cfg):
    return FILES + (F16 if cfg == "small" else [])


# ---------------------------------------------------------------- the system
class Dev:
    """contents and position of the open file; everything immutable"""
    __slots__ = ("data", "pos", "append", "open", "nr", "nw", "other")

    def __init__(self, data, pos=0, append=False, opened=True, nr=0, nw=0, other=()):
        self.data, self.pos, self.append, self.open, self.nr, self.nw, self.other = data, pos, append, opened, nr, nw, other

    def but(self, **k):
        d = {x: getattr(self, x) for x in ("data", "pos", "append", "nr", "nw", "other")}
        d["opened"] = self.open
        d.update(k)
        return Dev(**d)


def put(st, d):
    st.user = dict(st.user, dev=d)


class Sys:
    def __init__(self, M, rfail=None, wfail=None, short=False, nomem=False, lazy=False):
        self.M, self.W = M, M.pw
        self.rfail, self.wfail, self.short, self.nomem, self.lazy = rfail, wfail, short, nomem, lazy

    def hooks(self):
        h = {"__open": self.open, "__close": self.close, "__read": self.read, "__write": self.write, "__lseek": self.seek, "__lseekp": self.seekp,
             "malloc": self.malloc, "remove": lambda I, st, a, line: 0}
        return h

    def m1(self):
        return mask(self.W)

    def malloc(self, I, st, a, line):
        if self.nomem and st.user["phase"] == "run":
            return 0
        return st.newobj("heap", a[0], "unk")

    def open(self, I, st, a, line):
        fl = a[1] if isc(a[1]) else None
        put(st, st.user["dev"].but(opened=True))
        st.user = dict(st.user, oflags=fl)
        return 3

    def close(self, I, st, a, line):
        if a[0] != 3:
            raise AnalysisError("the wrong file is closed: null")
        put(st, st.user["dev"].but(opened=False))
        return 0

    def check(self, st, fd):
        if fd != 3 or not st.user["dev"].open:
            raise Bad("a file that is not the stream's is used")

    def read(self, I, st, a, line):
        self.check(st, a[0])
        d = st.user["dev"]
        n = a[2]
        if self.rfail is not None and d.nr == self.rfail:
            put(st, d.but(nr=d.nr + 1))
            st.user = dict(st.user, rfailed=1)
            return self.m1()
        got = d.data[d.pos:d.pos + (min(n, 1) if self.short else n)]
        for i, b in enumerate(got):
            st.store(P(a[1].obj, (a[1].off + i) & mask(self.W)), 1, b)
        put(st, d.but(pos=d.pos + len(got), nr=d.nr + 1))
        return len(got)

    def write(self, I, st, a, line):
        n = a[2]
        if a[0] in (1, 2):
            bs = tuple(st.load(P(a[1].obj, a[1].off + i), 1) for i in range(n))
            d = st.user["dev"]
            put(st, d.but(other=d.other + ((a[0], bs),)))
            return n
        self.check(st, a[0])
        d = st.user["dev"]
        bs = tuple(st.load(P(a[1].obj, (a[1].off + i) & mask(self.W)), 1) for i in range(n))
        if self.wfail is not None and d.nw == self.wfail[0]:
            put(st, d.but(nw=d.nw + 1))
            st.user = dict(st.user, wfailed=1)
            k = self.wfail[1]
            if k is None:
                return self.m1()
            n = max(n - k, 0)
            bs = bs[:n]
            d = d.but(nw=d.nw + 1)
        else:
            d = d.but(nw=d.nw + 1)
        pos = len(d.data) if d.append else d.pos
        data = d.data + (0,) * (pos - len(d.data)) if pos > len(d.data) and n else d.data
        data = data[:pos] + bs + data[pos + n:]
        put(st, d.but(data=data, pos=pos + n))
        return n

    def move(self, st, fd, off, wh):
        self.check(st, fd)
        d = st.user["dev"]
        p = off + {0: 0, 1: d.pos, 2: len(d.data)}[wh]
        if p < 0:
            return None
        put(st, d.but(pos=p))
        return p

    def seek(self, I, st, a, line):
        r = self.move(st, a[0], sgn(a[1], self.W), a[2])
        return self.m1() if r is None else r

    def seekp(self, I, st, a, line):
        r = self.move(st, a[0], sgn(st.load(a[1], 4), 32), a[2])
        if r is None:
            return self.m1()
        st.store(a[1], 4, r)
        return 0


class Bad(Exception):
    pass


# ---------------------------------------------------------------- C's stream
class Mod:
    """the abstract stream"""

    def __init__(self, data, r, w, append, text, update):
        self.data, self.pos, self.r, self.w, self.append, self.text, self.update = list(data), 0, r, w, append, text, update
        self.eof = self.err = False
        self.push = None
        self.last = None          # 'r', 'w' or None
        self.canunget = None      # the byte just read
        self.hold = None
        self.lost = self.told = False     # what the file holds is no longer known; the caller was told of a failure

    def copy(self):
        m = Mod.__new__(Mod)
        m.__dict__.update(self.__dict__)
        m.data = list(self.data)
        return m

    def getc(self):
        if self.push is not None:
            c, self.push = self.push, None
            self.pos += 1
            return c
        if self.eof:
            return None
        while self.pos < len(self.data):
            c = self.data[self.pos]
            self.pos += 1
            if not (self.text and isc(c) and c == 13):
                return c
        self.eof = True
        return None

    def putc(self, c):
        for b in ((13, c) if self.text and isc(c) and c == 10 else (c,)):
            if self.append:
                self.pos = len(self.data)
            if self.pos > len(self.data):
                self.data += [0] * (self.pos - len(self.data))
            self.data[self.pos:self.pos + 1] = [b]
            self.pos += 1

    def moved(self):
        self.push = None
        self.eof = False
        self.last = None
        self.canunget = None


# ---------------------------------------------------------------- operations
def can_read(m):
    return m.r and m.last != "w"


def can_write(m):
    return m.w and (m.last != "r" or m.eof and m.push is None) and m.push is None


class Run:
    def __init__(self, M, cfg, sysm):
        self.M, self.cfg, self.sys = M, cfg, sysm
        self.W = M.pw
        self.faults = []
        self.n = 0

    def call(self, st, fn, args):
        I = interp(self.M, self.sys.hooks())
        I.hooks.update(self.sys.hooks())
        bad = []

        def rec(s, e):
            if isfault(e):
                bad.append((str(e), clib.where(I, s)))
                return True
            return False
        I.recover = rec
        try:
            out = I.run(st, fn, args)
        except Bad as e:
            raise Fail(str(e), fn)
        if bad:
            raise Fail(bad[0][0], fn, bad[0][1])
        self.n += 1
        if len(out) != 1:
            raise AnalysisError("%s splits into %d paths on known contents" % (fn, len(out)))
        return out[0]

    def s(self, v):
        return sgn(v, self.W) if isc(v) else v

    # each: (legal(m), go(st, m) -> state); raises Fail on a mismatch
    def ch(self, c):
        return T.zext(8, c, self.W) if not isc(c) else c

    def want(self, fn, got, want, what="returns"):
        if isinstance(got, P):
            ok = False
        elif isc(got) and isc(want):
            ok = (got - want) & mask(self.W) == 0
        else:
            ok = got is want or got == want
        if not ok:
            sh = lambda v: v if isinstance(v, (P, str)) else str(sgn(v, self.W)) if isc(v) else T.show(v)
            raise Fail("%s %s %s instead of %s" % (fn, what, sh(got), sh(want)), fn)

    def fgetc(self, st, m, fn="fgetc"):
        st = self.call(st, fn, [self.f])
        if st.user.get("rfailed") and not m.err:
            return self.rerr(st, m, fn, st.ret)
        c = m.getc()
        m.last = "r"
        m.canunget = c
        self.want(fn, st.ret, self.ch(c) if c is not None else mask(self.W))
        return st

    def rerr(self, st, m, fn, ret, short=True):
        """a read failed inside the call"""
        m.err = True
        m.lost = True
        self.want(fn, ret, mask(self.W) if short is True else short)
        return st

    def fread(self, st, m, es, n):
        b = Buf(st, "rb%d" % self.n, [], es * n + 1)
        st = self.call(st, "fread", [b.at(0), es, n, self.f])
        got = []
        last = None
        failed = st.user.get("rfailed") and not m.err
        while len(got) < es * n:
            if failed and self.stop(st, m):
                break
            c = m.getc()
            if c is None:
                break
            got.append(c)
        m.last = "r"
        m.canunget = got[-1] if len(got) == es * n else None
        if failed:
            m.err = True
            m.lost = True
            if isc(st.ret) and st.ret < n:
                return st
            raise Fail("fread returns %s although reading failed" % st.ret, "fread")
        self.want("fread", st.ret, len(got) // es)
        now = b.bytes(st)
        for i, c in enumerate(got):
            if now[i] is not c and now[i] != c:
                raise Fail("fread stores a wrong byte %d" % i, "fread")
        if now[es * n] is not b.init[es * n]:
            raise Fail("fread writes past the destination", "fread")
        return st

    def stop(self, st, m):
        return True

    def fgets(self, st, m, k, fn="fgets"):
        b = Buf(st, "sb%d" % self.n, [], k + 1)
        st = self.call(st, "fgets", [b.at(0), k, self.f])
        if st.user.get("rfailed") and not m.err:
            m.err = m.lost = True
            return st
        got = []
        while len(got) < k - 1:
            c = m.getc()
            if c is None:
                break
            got.append(c)
            if isc(c) and c == 10:
                break
        if k > 1:
            m.last = "r"
            m.canunget = got[-1] if got and not m.eof else None
        if not got and k > 1:
            self.want("fgets", st.ret if not isinstance(st.ret, P) else "the buffer", 0)
            return st
        if not (isinstance(st.ret, P) and st.ret == b.at(0)):
            raise Fail("fgets returns %s instead of its first argument" % (st.ret,), "fgets")
        now = b.bytes(st)
        for i, c in enumerate(got + [0]):
            if now[i] is not c and now[i] != c:
                raise Fail("fgets stores a wrong byte %d" % i, "fgets")
        for i in range(len(got) + 1, k + 1):
            if now[i] is not b.init[i]:
                raise Fail("fgets writes past the end of the string", "fgets")
        return st

    def ungetc(self, st, m, other):
        c = m.canunget if not other else 0x7e
        v = self.ch(c)
        st = self.call(st, "ungetc", [v, self.f])
        self.want("ungetc", st.ret, self.ch(c))
        m.push = c
        m.pos -= 1
        m.eof = False
        m.canunget = None
        return st

    def wfailed(self, st, m, fn, failed):
        if not m.lost:
            m.err = True
            m.lost = True
        m.told = m.told or failed
        return st

    def fputc(self, st, m, c, fn="fputc"):
        st = self.call(st, fn, [c if isc(c) else T.zext(8, c, self.W), self.f])
        m.last = "w"
        m.canunget = None
        if st.user.get("wfailed"):
            return self.wfailed(st, m, fn, self.s(st.ret) == -1)
        m.putc(c)
        self.want(fn, st.ret, self.ch(c))
        self.fresh(st, m, c)
        return st

    def fresh(self, st, m, c=None):
        """what unbuffered and line-buffered streams promise"""
        if m.hold == "none" or (m.hold == "line" and isc(c) and c == 10):
            if self.dev(st) != tuple(m.data):
                raise Fail("output stays in the buffer of %s stream" % ("an unbuffered" if m.hold == "none" else "a line-buffered"), "fputc")

    def dev(self, st):
        return tuple(st.user["dev"].data)

    def fwrite(self, st, m, data, es):
        b = Buf(st, "wb%d" % self.n, list(data))
        n = len(data) // es
        st = self.call(st, "fwrite", [b.at(0), es, n, self.f])
        m.last = "w"
        m.canunget = None
        if st.user.get("wfailed"):
            return self.wfailed(st, m, "fwrite", isc(st.ret) and st.ret < n)
        for c in data:
            m.putc(c)
        self.want("fwrite", st.ret, n)
        if any(x is not y for x, y in zip(b.bytes(st), b.init)):
            raise Fail("fwrite changes the data written", "fwrite")
        self.fresh(st, m, data[-1] if data else None)
        return st

    def fputs(self, st, m, data):
        b = Buf(st, "ps%d" % self.n, list(data) + [0])
        st = self.call(st, "fputs", [b.at(0), self.f])
        if data:
            m.last = "w"
            m.canunget = None
        if st.user.get("wfailed"):
            return self.wfailed(st, m, "fputs", isc(st.ret) and self.s(st.ret) < 0)
        for c in data:
            m.putc(c)
        if not (isc(st.ret) and self.s(st.ret) >= 0) and not (not isc(st.ret) and st.ival(st.ret, self.W)[0] >= 0):
            if isc(st.ret):
                raise Fail("fputs returns %s instead of a non-negative number" % self.s(st.ret), "fputs")
        self.fresh(st, m, data[-1] if data else None)
        return st

    def fseek(self, st, m, off, wh):
        if self.cfg == "small":
            b = Buf(st, "fp%d" % self.n, [(off >> (8 * i)) & 255 for i in range(4)])
            st = self.call(st, "__fseek", [self.f, b.at(0), wh])
            fn = "__fseek"
            if [x for x in b.bytes(st)] != b.init:
                raise Fail("__fseek changes the offset passed to it", fn)
        else:
            st = self.call(st, "fseek", [self.f, off & mask(self.W), wh])
            fn = "fseek"
        if st.user.get("wfailed"):
            self.wfailed(st, m, fn, self.s(st.ret) != 0)
            if st.ret == 0:
                m.moved()
            return st
        if m.append:
            self.want(fn, st.ret, 0)
            m.moved()
            return st
        base = {0: 0, 1: m.pos, 2: len(m.data)}[wh]
        if base + off < 0:
            if st.ret == 0:
                raise Fail("%s before the beginning of the file succeeds" % fn, fn)
            m.lost = True
            return st
        self.want(fn, st.ret, 0)
        m.moved()
        m.pos = base + off
        return st

    def ftell(self, st, m):
        if self.cfg == "small":
            b = Buf(st, "tp%d" % self.n, [0xa5] * 4)
            st = self.call(st, "__ftell", [self.f, b.at(0)])
            self.want("__ftell", st.ret, 0)
            v, fn = st.load(b.at(0), 4), "__ftell"
            if v != m.pos:
                raise Fail("__ftell stores %s instead of %d" % (v, m.pos), fn)
        else:
            st = self.call(st, "ftell", [self.f])
            self.want("ftell", st.ret, m.pos)
        return st

    def getset(self, st, m, mv):
        """fgetpos, reading or writing, fsetpos"""
        b = Buf(st, "gp%d" % self.n, [], 4)
        st = self.call(st, "fgetpos", [self.f, b.at(0)])
        self.want("fgetpos", st.ret, 0)
        pos = m.pos
        st = mv(st, m)
        st = self.call(st, "fsetpos", [self.f, b.at(0)])
        if st.user.get("wfailed"):
            self.wfailed(st, m, "fsetpos", self.s(st.ret) != 0)
            if st.ret == 0:
                m.moved()
            return st
        self.want("fsetpos", st.ret, 0)
        m.moved()
        m.pos = pos
        return st

    def rewind(self, st, m):
        st = self.call(st, "rewind", [self.f])
        if st.user.get("wfailed"):
            m.lost = m.told = True
            m.err = False
            return st
        m.moved()
        m.err = False
        if not m.append:
            m.pos = 0
        return st

    def fflush(self, st, m, null=False):
        st = self.call(st, "fflush", [0 if null else self.f])
        if st.user.get("wfailed"):
            return self.wfailed(st, m, "fflush", self.s(st.ret) == -1)
        self.want("fflush", st.ret, 0)
        if m.last == "w" and self.dev(st) != tuple(m.data):
            raise Fail("fflush leaves output in the buffer", "fflush")
        if m.update and m.last == "w":
            m.last = None
        return st

    def clearerr(self, st, m):
        st = self.call(st, "clearerr", [self.f])
        m.eof = m.err = False
        return st


class Fail(Exception):
    def __init__(self, msg, fn, where=None):
        Exception.__init__(self, msg)
        self.fn, self.where = fn, where


def ops(r, W, short):
    """name -> (legal, action)"""
    x, y = byt("x"), byt("y")
    rd = {
        "fgetc": (can_read, lambda st, m: r.fgetc(st, m)),
        "fread(1,3)": (can_read, lambda st, m: r.fread(st, m, 1, 3)),
        "fread(2,2)": (can_read, lambda st, m: r.fread(st, m, 2, 2)),
        "fgets(4)": (can_read, lambda st, m: r.fgets(st, m, 4)),
        "ungetc(same)": (lambda m: can_read(m) and m.canunget is not None, lambda st, m: r.ungetc(st, m, 0)),
        "ungetc(other)": (lambda m: can_read(m) and m.canunget is not None, lambda st, m: r.ungetc(st, m, 1)),
    }
    wr = {
        "fputc(x)": (can_write, lambda st, m: r.fputc(st, m, x)),
        "fputc(newline)": (can_write, lambda st, m: r.fputc(st, m, 10)),
        "fwrite(1,3)": (can_write, lambda st, m: r.fwrite(st, m, (x, 10, y), 1)),
        "fwrite(2,2)": (can_write, lambda st, m: r.fwrite(st, m, (1, x, 200, 255), 2)),
        "fputs": (can_write, lambda st, m: r.fputs(st, m, (65, 10, 66))),
        "fflush": (lambda m: m.last != "r" and m.w, lambda st, m: r.fflush(st, m)),
        "fflush(all)": (lambda m: m.w, lambda st, m: r.fflush(st, m, True)),
    }
    mv = {}
    for off, wh in ((0, 0), (2, 0), (7, 0), (-1, 1), (0, 1), (1, 1), (4, 1), (-4, 1), (0, 2), (-2, 2), (-1, 0)):
        mv["fseek(%d,%s)" % (off, ("SET", "CUR", "END")[wh])] = (lambda m: True, (lambda o, w: lambda st, m: r.fseek(st, m, o, w))(off, wh))
    mv["rewind"] = (lambda m: True, lambda st, m: r.rewind(st, m))
    mv["clearerr"] = (lambda m: True, lambda st, m: r.clearerr(st, m))
    mv["getpos/fgetc/setpos"] = (can_read, lambda st, m: r.getset(st, m, r.fgetc))
    mv["getpos/fputc/setpos"] = (lambda m: can_write(m) and not m.append, lambda st, m: r.getset(st, m, lambda s, k: r.fputc(s, k, x)))
    if short == 1:
        keep = {"fgetc", "fread(1,3)", "ungetc(same)", "ungetc(other)", "fputc(x)", "fputc(newline)", "fwrite(1,3)", "fflush", "fseek(2,SET)", "fseek(1,CUR)", "fseek(-1,CUR)",
                "fseek(-2,END)", "rewind"}
    else:
        keep = None
    out = {}
    for k, v in list(rd.items()) + list(wr.items()) + list(mv.items()):
        if keep is None or k in keep:
            out[k] = v
    return out


MODES = {"r": (1, 0, 0), "w": (0, 1, 0), "a": (0, 1, 0), "r+": (1, 1, 1), "w+": (1, 1, 1)}
BUFS = {"none": (2, 0), "full1": (1, 1), "full2": (1, 2), "full3": (1, 3), "full8": (1, 8), "line3": (4, 3), "default": None}


def tail(r, st, m, names, at):
    """observe the stream, close it and look at the file"""
    m = m.copy()
    st = fork(st)
    lost = m.lost
    if not lost:
        if not (m.append and m.last is None):
            st = r.ftell(st, m)
    ret = r.call(st, "feof", [r.f]).ret
    st2 = r.call(st, "ferror", [r.f])
    if not lost or m.err and not m.w:
        if (ret != 0) != m.eof:
            raise Fail("feof reports %s" % ("the end was reached" if ret else "no end"), "feof")
    if (st2.ret != 0) != m.err:
        raise Fail("ferror reports %s" % ("an error" if st2.ret else "no error"), "ferror")
    st = st2
    if not lost and can_read(m) and not r.sys.rfail:
        st = r.fgetc(st, m)
    st = r.call(st, "fclose", [r.f])
    if st.user["dev"].open:
        raise Fail("fclose leaves the file open", "fclose")
    failed = r.s(st.ret) != 0
    if m.w and st.user.get("wfailed"):
        if not (failed or m.told):
            raise Fail("a failed write is never reported", "fclose")
        return
    if failed:
        raise Fail("fclose fails", "fclose")
    if not lost and tuple(m.data) != r.dev(st):
        raise Fail("the file's contents are %s instead of %s" % (show(r.dev(st)), show(m.data)), "fclose")


def show(bs):
    return " ".join(("%02x" % b) if isc(b) else T.show(b) for b in bs)


def fork(st):
    s = st.fork()
    for o in st.mem.values():
        o.owner = None
    s.owner = None
    return s


def content(cfg, kind, st):
    bs = []
    for i, c in enumerate(kind):
        if c == "b":
            b = byt("d%d" % i)
            for v in (10, 13, 0x7e):
                st.assume(T.cmp_("eq", 8, b, v), 0)
            bs.append(b)
        else:
            bs.append({"n": 10, "r": 13, "z": 0, "h": 0xff}[c])
    return bs


def setup(M, cfg, mode, text, buf, kind, sysm):
    st = State(M)
    st.user = {"phase": "open", "dev": Dev(()), "oflags": None}
    for n in ("x", "y"):
        for v in (10, 13, 0x7e):
            st.assume(T.cmp_("eq", 8, byt(n), v), 0)
    data = content(cfg, kind, st)
    if mode[0] == "w":
        data = []
    r = Run(M, cfg, sysm)
    nm = Buf(st, "name", [102, 0])
    md = Buf(st, "mode", [ord(c) for c in mode[0] + ("" if text else "b") + mode[1:]] + [0])
    put(st, Dev(tuple(data), len(data) if mode[0] == "a" else 0, mode[0] == "a", False))
    st = r.call(st, "fopen", [nm.at(0), md.at(0)])
    if not isinstance(st.ret, P):
        raise Fail("fopen fails", "fopen")
    r.f = st.ret
    rd, wr, up = MODES[mode]
    tx = text and cfg not in UNIX
    m = Mod(data, rd, wr, mode[0] == "a", tx, up)
    if m.append:
        m.pos = len(data)
    if BUFS[buf]:
        how, size = BUFS[buf]
        b = Buf(st, "ext", [], size) if size else None
        st = r.call(st, "setvbuf", [r.f, b.at(0) if b else 0, how, size])
        r.want("setvbuf", st.ret, 0)
        m.hold = "none" if how == 2 else "line" if how == 4 else None
    st.user = dict(st.user, phase="run")
    st.owner = None
    return r, st, m


def explore(M, cfg, mode, text, buf, kind, depth, short, sysargs, first=None):
    """all histories of at most depth operations"""
    bad = {}
    n = [0]

    def fail(e, names):
        k = (str(e), e.fn)
        if k not in bad:
            bad[k] = (", ".join(names), e.where)
    try:
        r, st, m = setup(M, cfg, mode, text, buf, kind, Sys(M, **sysargs))
    except Fail as e:
        fail(e, ["fopen"])
        return [(k[0], k[1], v[0], v[1]) for k, v in bad.items()], 1, 1
    O = ops(r, M.pw, short)

    def rec(st, m, names):
        n[0] += 1
        try:
            tail(r, st, m, names, None)
        except Fail as e:
            fail(e, names)
            return
        if len(names) >= depth or m.lost and not (m.w and st.user.get("wfailed")):
            return
        for nm, (legal, go) in O.items():
            if not names and first is not None and nm != first:
                continue
            if not legal(m) or m.lost and not nm.startswith(("fputc", "fwrite", "fputs", "fflush")):
                continue
            m2 = m.copy()
            s2 = fork(st)
            try:
                s3 = go(s2, m2)
            except Fail as e:
                fail(e, names + [nm])
                continue
            rec(s3, m2, names + [nm])
    rec(st, m, [])
    return [(k[0], k[1], v[0], v[1]) for k, v in bad.items()], n[0], r.n


def plan(deep):
    out = []
    for cfg, _ in clib.variants(FILES + F16):
        for mode in MODES:
            for text in ((0,) if cfg in UNIX else (0, 1)):
                kinds = ["bbbbbb"] if not text else ["bbbbbb", "brnbrn", "bnrrbr", "rnrnbn"]
                if not text:
                    kinds.append("hbnbzh")
                for kind in kinds:
                    for buf in BUFS:
                        d, short = (3, 0) if deep else (2, 0)
                        out.append((cfg, mode, text, buf, kind, d, short, {}))
                        if not deep and buf in ("full3", "none") and kind == kinds[-1]:
                            out.append((cfg, mode, text, buf, kind, 3, 1, {}))
                        if deep and buf in ("full3",):
                            out.append((cfg, mode, text, buf, kind, 4, 1, {}))
                for buf in ("full2", "none", "default"):
                    if MODES[mode][0]:
                        out.append((cfg, mode, text, buf, kinds[0], 2, 0, {"short": True}))
                        for k in range(0, 4):
                            out.append((cfg, mode, text, buf, kinds[0], 2, 0, {"rfail": k}))
                    if MODES[mode][1]:
                        for k in range(0, 4):
                            for s in (None, 1, 99):
                                out.append((cfg, mode, text, buf, kinds[0], 3 if deep else 2, 0 if deep else 0, {"wfail": (k, s)}))
                out.append((cfg, mode, text, "default", kinds[0], 2, 0, {"nomem": True}))
    return out


def s07(R):
    deep = R.thorough
    R.rule("Histories of stream operations are interpreted as a tree over a model of the system's file calls, for every mode, buffering and device behaviour listed; "
           "results, position, indicators, buffering promises and the file's final contents are compared with C's stream on every node.")
    R.assume += ["a stream is reading or writing between positioning calls, as C requires", "the system's file calls behave as documented"]
    items = plan(deep)
    for c in {x[0] for x in items}:
        clib.load(c, files(c))
        R.count("library variants")

    def work(i):
        cfg, mode, text, buf, kind, d, short, sa = items[i]
        return explore(clib.load(cfg, files(cfg)), cfg, mode, text, buf, kind, d, short, sa)
    for it, (bad, n, calls) in zip(items, par.pmap(work, range(len(items)), chunk=1)):
        cfg, mode, text, buf, kind, d, short, sa = it
        R.count("stream set-ups")
        R.count("histories", n)
        R.count("calls analysed", calls)
        nm = "%s%s stream, %s buffering%s" % (mode, " text" if text else " binary", buf, ", " + ", ".join("%s=%s" % x for x in sa.items()) if sa else "")
        R.sample("%s %s" % (cfg, nm))
        M = clib.load(cfg, files(cfg))
        for msg, fn, hist, w in bad:
            R.violation("%s:%s:%s" % (cfg, fn, msg), w or whereis(M, fn), "%s: after %s: %s (%s)" % (nm, hist or "fopen", msg, cfg))
    R.need("stream set-ups", 50)
    R.need("histories", 5000)
