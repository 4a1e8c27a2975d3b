"""Abstract model of the C library's I/O for the analysed programs.

A file is a memory object (input files: concrete structure, symbolic contents)
or a list of write events (output files: position term, bytes or fill).
st.user keys:
  files   name -> P (input file object) and its size
  fh      handle object -> [name, pos, mode]
  out     name -> tuple of events (pos, n, kind, data)
  io      tuple of every library call made (name, detail)
  fail    None, "armed" (one I/O call may fail; the analysis forks), or the failed call
"""
import terms as T
from terms import isc, mask, sgn, Term
from sai import P, F, State, Interp, AnalysisError, END, CALL, Forks, copy


class Files:
    pass


def newstate(M):
    st = State(M)
    st.user.update(files={}, fh={}, out={}, io=(), fail=None, order=())
    return st


def addfile(st, name, size, ents, default):
    """ents: list (off, n, value); default(st,o,off,n) gives the contents elsewhere"""
    p = st.newobj("file:" + name, size, default)
    o = st.wobj(p.obj)
    for off, n, v in ents:
        o.data[off] = (n, v)
    st.user["files"] = dict(st.user["files"])
    st.user["files"][name] = (p, size)
    return p


def uset(st, key, k, v):
    d = dict(st.user[key])
    d[k] = v
    st.user[key] = d


def log(st, *x):
    st.user["io"] = st.user["io"] + (x,)


def maybefail(st, what, line, okv, failv, act=None):
    """fork: the call succeeds, or fails (at most one failure per path)"""
    if st.user["fail"] != "armed":
        return None
    s2 = st.fork()
    for o in st.mem.values():
        o.owner = None
    s2.user["fail"] = (what, line, tuple((f.fn.name, f.callline) for f in s2.frames))
    return s2


def forkres(st, s2, v, v2):
    return Forks([(st, v), (s2, v2)])


def h_fopen(I, st, a, line):
    name = st.cstr(a[0])
    mode = st.cstr(a[1])
    log(st, "fopen", name, mode, line)
    s2 = maybefail(st, "fopen", line, None, None)
    w = mode[0] in "wa"
    if not w and name not in st.user["files"]:
        if s2 is not None:
            return forkres(st, s2, 0, 0)
        return 0
    h = st.newobj("FILE", 16)
    uset(st, "fh", h.obj, (name, 0, mode))
    if w:
        uset(st, "out", name, ())
        st.user["order"] = st.user["order"] + (("create", name),)
    if s2 is not None:
        return forkres(st, s2, h, 0)
    return h


def handle(st, p, what, line):
    if not isinstance(p, P) or p.obj not in st.user["fh"]:
        raise AnalysisError("out of bounds %s of a stream that is not open (%r), line %d" % (what, p, line))
    return st.user["fh"][p.obj]


def h_fclose(I, st, a, line):
    name, pos, mode = handle(st, a[0], "close", line)
    d = dict(st.user["fh"])
    del d[a[0].obj]
    st.user["fh"] = d
    log(st, "fclose", name, mode, line)
    st.user["order"] = st.user["order"] + (("close", name, mode),)
    if st.user.get("sticky") == a[0].obj:
        return mask(32)
    if mode[0] in "wa" or "+" in mode:
        s2 = maybefail(st, "fclose", line, 0, mask(32))
        if s2 is not None:
            return forkres(st, s2, 0, mask(32))
    return 0


def h_fseek(I, st, a, line):
    name, pos, mode = handle(st, a[0], "seek", line)
    if a[2] == 0:
        np = a[1]
    elif a[2] == 1:
        np = T.add(64, pos, a[1])
    else:
        np = T.add(64, fsize(st, name), a[1])
    s2 = maybefail(st, "fseek", line, 0, mask(32))
    uset(st, "fh", a[0].obj, (name, np, mode))
    if s2 is not None:
        return forkres(st, s2, 0, mask(32))
    return 0


def fsize(st, name):
    if name in st.user["out"]:
        e = 0
        for ev in st.user["out"][name]:
            e2 = T.add(64, ev[0], ev[1])
            if isc(e) and isc(e2):
                e = max(e, e2)
            else:
                e = e2
        return e
    return st.user["files"][name][1]


def h_ftell(I, st, a, line):
    return handle(st, a[0], "ftell", line)[1]


def h_fread(I, st, a, line):
    name, pos, mode = handle(st, a[3], "read", line)
    if not isc(a[1]) or not isc(a[2]):
        raise AnalysisError("read of unknown size at line %d" % line)
    n = a[1] * a[2]
    s2 = maybefail(st, "fread", line, 0, 0)
    if name in st.user["out"]:
        readout(st, name, pos, a[0], n)
        uset(st, "fh", a[3].obj, (name, T.add(64, pos, n), mode))
        got = n
    else:
        fp, size = st.user["files"][name]
        if not isc(pos):
            raise AnalysisError("read at unknown position, line %d" % line)
        got = n
        if size is not None and pos + n > size:
            got = max(0, size - pos)
            I.short = (line, name)
        if got:
            copy(st, a[0], P(fp.obj, pos), got)
        uset(st, "fh", a[3].obj, (name, pos + got, mode))
    r = a[2] if got == n else (got // a[1] if a[1] else 0)
    if s2 is not None:
        return forkres(st, s2, r, 0)
    return r


def readout(st, name, pos, dst, n):
    """read back what was written: last write wins"""
    for i in range(n):
        p = T.add(64, pos, i)
        v = outbyte(st, name, p)
        st.store(P(dst.obj, T.add(64, dst.off, i)), 1, v)


def outbyte(st, name, p):
    for ev in reversed(st.user["out"][name]):
        d = T.sub(64, p, ev[0])
        rel = st.user.get("rel")
        if not isc(d) and rel:
            d = rel.constant(st, d)
        if isc(d):
            d = sgn(d, 64)
            if d < 0:
                continue
            if isc(ev[1]):
                if d >= ev[1]:
                    continue
                return ev[3][d] if ev[2] == "bytes" else ev[3]
        raise AnalysisError("read back at an undetermined position")
    raise AnalysisError("read back of unwritten data at %s" % (p,))


def h_fwrite(I, st, a, line):
    name, pos, mode = handle(st, a[3], "write", line)
    if not isc(a[1]) or not isc(a[2]):
        raise AnalysisError("write of unknown size at line %d" % line)
    n = a[1] * a[2]
    s2 = maybefail(st, "fwrite", line, 0, 0) if n else None
    if n:
        data = tuple(st.load(P(a[0].obj, T.add(64, a[0].off, i)), 1) for i in range(n))
        emit(st, name, pos, n, "bytes", data, line)
        uset(st, "fh", a[3].obj, (name, T.add(64, pos, n), mode))
    if s2 is not None:
        return forkres(st, s2, a[2], 0)
    return a[2]


def emit(st, name, pos, n, kind, data, line):
    uset(st, "out", name, st.user["out"][name] + ((pos, n, kind, data, tuple((f.fn.name, f.callline) for f in st.frames[-3:]), line),))


def h_fgetc(I, st, a, line):
    name, pos, mode = handle(st, a[0], "read", line)
    fp, size = st.user["files"][name]
    if size is not None and pos >= size:
        return mask(32)
    v = st.load(P(fp.obj, pos), 1)
    uset(st, "fh", a[0].obj, (name, pos + 1, mode))
    return T.zext(8, v, 32)


def h_remove(I, st, a, line):
    name = st.cstr(a[0])
    log(st, "remove", name, line)
    st.user["order"] = st.user["order"] + (("remove", name),)
    return 0


def h_exit(I, st, a, line):
    st.status = ("exit", sgn(a[0], 32) if isc(a[0]) else a[0])
    return END


def h_printf(I, st, a, line):
    try:
        f = st.cstr(a[0])
    except AnalysisError:
        f = "?"
    log(st, "print", f, line)
    return 1


def h_fprintf(I, st, a, line):
    name = None
    if isinstance(a[0], P) and a[0].obj in st.user["fh"]:
        name = st.user["fh"][a[0].obj][0]
    f = st.cstr(a[1])
    args = []
    for x in a[2:]:
        if isinstance(x, P):
            try:
                args.append(st.cstr(x))
            except AnalysisError:
                args.append(x)
        else:
            args.append(x)
    log(st, "fprintf", name, f, tuple(args), line)
    if name:
        s2 = maybefail(st, "fprintf", line, 0, 0)
        if s2 is not None:
            s2.user["sticky"] = a[0].obj
            return forkres(st, s2, 1, mask(32))
    return 1


def h_qsort(I, st, a, line):
    base, n, sz, cmpf = a
    if not isc(n) or not isc(sz):
        raise AnalysisError("qsort of unknown size")
    items = []
    for i in range(n):
        tmp = st.newobj("qs", sz, "unk")
        copy(st, tmp, P(base.obj, base.off + i * sz), sz)
        items.append(tmp)

    def lt(x, y):
        s2 = st.fork()
        for o in st.mem.values():
            o.owner = None
        s2.frames = []
        fin = I.run(s2, cmpf.name, [x, y])
        rs = set()
        for f in fin:
            if f.status != "ret":
                raise AnalysisError("comparison function %s does not return" % cmpf.name)
            r = f.ret
            if not isc(r):
                lo, hi = f.ival(r, 32)
                if lo > 0:
                    r = 1
                elif hi < 0:
                    r = mask(32)
                elif lo >= 0 and hi <= 0:
                    r = 0
            rs.add(sgn(r, 32) if isc(r) else None)
        if None in rs:
            raise AnalysisError("comparison function %s is not decided" % cmpf.name)
        if len({(r > 0) - (r < 0) for r in rs}) != 1:
            raise AnalysisError("comparison function %s is not decided" % cmpf.name)
        return rs.pop() < 0
    # stable insertion sort
    res = []
    for it in items:
        i = len(res)
        while i > 0 and lt(it, res[i - 1]):
            i -= 1
        res.insert(i, it)
    for i, it in enumerate(res):
        copy(st, P(base.obj, base.off + i * sz), it, sz)
    return 0


def h_malloc(I, st, a, line):
    n = a[0] if isc(a[0]) else None
    s2 = None
    if st.user.get("failmem") and st.user["fail"] == "armed":
        s2 = maybefail(st, "malloc", line, 0, 0)
    p = st.newobj("heap", n, "unk")
    if s2 is not None:
        return forkres(st, s2, p, 0)
    return p


def h_calloc(I, st, a, line):
    return st.newobj("heap", a[0] * a[1], "zero")


def h_realloc(I, st, a, line):
    old, n = a
    if not isc(n):
        raise AnalysisError("realloc of unknown size")
    s2 = None
    if st.user.get("failmem") and st.user["fail"] == "armed":
        s2 = maybefail(st, "realloc", line, 0, 0)
    p = st.newobj("heap", n, "unk")
    if isinstance(old, P):
        o = st.obj(old.obj)
        d = st.wobj(p.obj)
        for off, e in o.data.items():
            if off + e[0] <= n:
                d.data[off] = e
        d.default = o.default
        del st.mem[old.obj]
    if s2 is not None:
        return forkres(st, s2, p, 0)
    return p


def h_free(I, st, a, line):
    p = a[0]
    if isinstance(p, P):
        if p.obj not in st.mem:
            raise AnalysisError("out of bounds free of %s at line %d" % (p.obj, line))
        del st.mem[p.obj]
    return 0


def h_strtoul(I, st, a, line):
    s = st.cstr(a[0])
    if s.startswith("$"):
        return T.zext(32, T.sym(s[1:], 32), 64)
    import re
    m = re.match(r"\s*[-+]?(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)?", s)
    t = m.group(0).strip()
    if isinstance(a[1], P):
        st.store(a[1], 8, P(a[0].obj, a[0].off + len(m.group(0)) if t else a[0].off))
    if not t or t in "+-":
        return 0
    b = a[2]
    neg = t.startswith("-")
    t = t.lstrip("+-")
    v = int(t, 16) if t[:2] in ("0x", "0X") else int(t, 8) if t.startswith("0") and t != "0" and b == 0 else int(t, 10)
    return (-v if neg else v) & mask(64)


def h_strtok(I, st, a, line):
    s, sep = a
    seps = st.cstr(sep)
    if not isinstance(s, P):
        s = st.user.get("strtok")
        if s is None:
            return 0
    off = s.off
    while True:
        c = st.load(P(s.obj, off), 1)
        if c == 0:
            st.user["strtok"] = None
            return 0
        if chr(c) not in seps:
            break
        off += 1
    b = off
    while True:
        c = st.load(P(s.obj, off), 1)
        if c == 0:
            st.user["strtok"] = None
            break
        if chr(c) in seps:
            st.store(P(s.obj, off), 1, 0)
            st.user["strtok"] = P(s.obj, off + 1)
            break
        off += 1
    return P(s.obj, b)


def h_memcmp(I, st, a, line):
    if not isc(a[2]):
        raise AnalysisError("memcmp of unknown length")
    out = []
    cur = st
    for i in range(a[2]):
        x = cur.load(P(a[0].obj, a[0].off + i), 1)
        y = cur.load(P(a[1].obj, a[1].off + i), 1)
        if isc(x) and isc(y):
            if x != y:
                r = 1 if x > y else mask(32)
                break
            continue
        if x is y:
            continue
        c = T.cmp_("eq", 8, x, y)
        d = cur.decide(c)
        if d == 1:
            continue
        if d == 0:
            r = 1
            break
        ne = cur.fork()
        for o in ne.mem.values():
            o.owner = None
        if ne.assume(c, 0) is not False:
            out.append((ne, 1))
        if cur.assume(c, 1) is False:
            r = None
            break
    else:
        r = 0
    if not out:
        return r
    if r is not None:
        out.append((cur, r))
    return Forks(out)


def h_strncpy(I, st, a, line):
    s = st.cstr(a[1])[:a[2]]
    for i in range(a[2]):
        st.store(P(a[0].obj, a[0].off + i), 1, ord(s[i]) if i < len(s) else 0)
    return a[0]


def h_0(I, st, a, line):
    return 0


HOOKS = {
    "fopen": h_fopen, "fclose": h_fclose, "fseek": h_fseek, "ftell": h_ftell, "fread": h_fread, "fwrite": h_fwrite,
    "fgetc": h_fgetc, "getc": h_fgetc, "remove": h_remove, "unlink": h_remove, "exit": h_exit, "printf": h_printf, "vprintf": h_printf,
    "puts": h_printf, "putchar": h_0, "fprintf": h_fprintf, "qsort": h_qsort, "malloc": h_malloc, "calloc": h_calloc,
    "realloc": h_realloc, "free": h_free, "strtoul": h_strtoul, "strtok": h_strtok, "memcmp": h_memcmp, "strncpy": h_strncpy,
    "llvm.va_start": h_0, "llvm.va_end": h_0, "fflush": h_0, "abort": h_exit,
}


def argv(st, args):
    n = len(args)
    arr = st.newobj("argv", 8 * (n + 1), "zero")
    for i, s in enumerate(args):
        p = st.newobj("arg%d" % i, len(s) + 1, "unk")
        st.putstr(p, s)
        st.store(P(arr.obj, 8 * i), 8, p)
    st.store(P(arr.obj, 8 * n), 8, 0)
    return [n, arr]
