"""Driver (smlrcc) and other command-line tools under the abstract interpreter.

Arguments are sequences of concrete characters and symbolic bytes; commands
passed to system() are parsed by a model of sh (or of the MS-DOS/Windows rules)
that refuses to guess about symbolic bytes.
"""
import re
import terms as T
from terms import isc, mask, sgn, Term
import sai, stdio
from sai import P, F, Interp, AnalysisError, END, Forks

STR = ("strlen", "strcmp", "strncmp", "strcpy", "strncpy", "strcat", "strchr", "strrchr", "strpbrk", "strspn", "strcspn", "strstr", "strtok")


class W:
    """a string: tuple of ints and 8-bit terms"""

    def __init__(self, *parts):
        b = []
        self.iv = {}
        for p in parts:
            if isinstance(p, str):
                b += list(p.encode("latin1"))
            elif isinstance(p, W):
                b += list(p.b)
                self.iv.update(p.iv)
            else:
                name, n, lo, hi = p
                for i in range(n):
                    t = T.sym("%s%d" % (name, i), 8)
                    self.iv[t] = (lo, hi)
                    b.append(t)
        self.b = tuple(b)

    def __add__(self, o):
        return W(self, o)


def low(name, n=2):
    """n unknown lower-case letters"""
    return W((name, n, 97, 122))


def show(b):
    return "".join(chr(x) if isc(x) else "<%s>" % x.args[0] if x.op == "sym" else "<?>" for x in b)


def newstr(st, w, name="str"):
    if isinstance(w, str):
        w = W(w)
    p = st.newobj(name, len(w.b) + 1, "unk")
    for i, c in enumerate(w.b):
        st.store(P(p.obj, i), 1, c)
    st.store(P(p.obj, len(w.b)), 1, 0)
    st.ivals.update(w.iv)
    return p


def getstr(st, p, what="string"):
    if not isinstance(p, P):
        raise AnalysisError("out of bounds: null %s" % what)
    out = []
    off = p.off
    while True:
        c = st.load(P(p.obj, off), 1)
        if not isc(c):
            d = st.decide(T.cmp_("eq", 8, c, 0))
            if d is None:
                raise AnalysisError("undetermined end of %s" % what)
            if d == 1:
                return tuple(out)
        elif c == 0:
            return tuple(out)
        out.append(c)
        off += 1


def h_getenv(I, st, a, line):
    n = st.cstr(a[0])
    v = st.user["env"].get(n)
    stdio.log(st, "getenv", n)
    if v is None:
        return 0
    if v == "any":
        raise AnalysisError("getenv %s" % n)
    return newstr(st, v, "env")


def h_system(I, st, a, line):
    cmd = getstr(st, a[0], "command")
    ev = ("system", cmd, line, {k: v for k, v in st.user["out"].items() if not any(h[0] == k for h in st.user["fh"].values())})
    s2 = stdio.maybefail(st, "system", line, 0, 1)
    st.user["ev"] = st.user["ev"] + (ev,)
    if s2 is not None:
        s2.user["ev"] = s2.user["ev"] + (ev,)
        s2.assume(T.cmp_("eq", 32, T.sym("status", 32), 0), 0)
        return stdio.forkres(st, s2, 0, T.sym("status", 32))
    return 0


def h_fopen(I, st, a, line):
    name = getstr(st, a[0], "file name")
    mode = st.cstr(a[1])
    known = st.user["exist"]
    w = mode[0] in "wa"
    if w:
        s2 = stdio.maybefail(st, "fopen", line, None, None)
        st.user["ev"] = st.user["ev"] + (("create", name, line),)
        h = st.newobj("FILE", 16)
        key = show(name)
        stdio.uset(st, "fh", h.obj, (key, 0, mode))
        stdio.uset(st, "out", key, ())
        if s2 is not None:
            return stdio.forkres(st, s2, h, 0)
        return h
    if name in st.user["inputs"]:
        key = show(name)
        s2 = stdio.maybefail(st, "fopen", line, None, None)
        h = st.newobj("FILE", 16)
        stdio.uset(st, "fh", h.obj, (key, 0, mode))
        if s2 is not None:
            return stdio.forkres(st, s2, h, 0)
        return h
    if name in known:
        r = known[name]
    elif st.user["existdef"] == "fork":
        s2 = st.fork()
        for o in st.mem.values():
            o.owner = None
        stdio.uset(st, "exist", name, True)
        stdio.uset(s2, "exist", name, False)
        h = st.newobj("FILE", 16)
        stdio.uset(st, "fh", h.obj, (show(name), 0, mode))
        return stdio.forkres(st, s2, h, 0)
    else:
        r = st.user["existdef"](name)
        stdio.uset(st, "exist", name, bool(r))
    if not r:
        return 0
    key = show(name)
    if key not in st.user["files"]:
        n = st.user["sizes"].get(key, 3)
        stdio.addfile(st, key, n, [], filedef(key))
    s2 = stdio.maybefail(st, "fopen", line, None, None) if st.user.get("failread") and st.user["failread"](key) else None
    h = st.newobj("FILE", 16)
    stdio.uset(st, "fh", h.obj, (key, 0, mode))
    if s2 is not None:
        return stdio.forkres(st, s2, h, 0)
    return h


def filedef(key):
    return lambda st, o, off, n: T.sym("%s@%d" % (key, off), 8 * n)


def h_remove(I, st, a, line):
    st.user["ev"] = st.user["ev"] + (("remove", getstr(st, a[0], "file name"), line),)
    return 0


def h_sprintf(I, st, a, line):
    f = st.cstr(a[1])
    k = 2
    out = []
    for m in re.finditer(r"%(l?)([udsxc%])|([^%])", f, re.S):
        if m.group(3):
            out.append(ord(m.group(3)))
        elif m.group(2) == "%":
            out.append(37)
        elif m.group(2) == "s":
            out += getstr(st, a[k])
            k += 1
        elif m.group(2) == "c":
            v = a[k]
            k += 1
            out.append(v & 255 if isc(v) else T.trunc(32, v, 8))
        else:
            v = a[k]
            k += 1
            if not isc(v):
                raise AnalysisError("formatted output of an unknown number at line %d" % line)
            w = 64 if m.group(1) else 32
            v = sgn(v, w) if m.group(2) == "d" else v & mask(w)
            out += [ord(c) for c in ("%x" % v if m.group(2) == "x" else "%d" % v)]
    for i, c in enumerate(out + [0]):
        st.store(P(a[0].obj, T.add(64, a[0].off, i)), 1, c)
    return len(out)


def h_tmpnam(I, st, a, line):
    n = st.user.get("ntmp", 0)
    st.user["ntmp"] = n + 1
    return newstr(st, "tmp%d.$$$" % n, "tmpnam")


HOOKS = {"tmpnam": h_tmpnam, "getenv": h_getenv, "system": h_system, "fopen": h_fopen, "remove": h_remove, "sprintf": h_sprintf}


def run(M, args, env=None, exist=None, existdef=None, inputs=(), files=(), fail=None, failmem=False, maxstates=6000, recover=None,
        maxsteps=600000, hooks=None, sizes=None, failread=None, user=None, ivals=None):
    st = stdio.newstate(M)
    st.user.update(env=env or {}, ev=(), exist=dict(exist or {}), existdef=existdef or (lambda n: False), inputs=set(), sizes=sizes or {}, failread=failread, fail=fail, failmem=failmem)
    st.user.update(user or {})
    st.ivals.update(ivals or {})
    for w, size, ents, d in files:
        stdio.addfile(st, show(w.b), size, ents, d)
        st.user["inputs"] = st.user["inputs"] | {w.b}
    hk = dict(stdio.HOOKS)
    hk.update(HOOKS)
    if hooks:
        hk.update(hooks)
    I = Interp(M, hk, maxsteps=maxsteps, maxstates=maxstates)
    if getattr(M, "libc", False):
        for n in STR:
            hk.pop(n, None)
            I.hooks.pop(n, None)
    I.recover = recover
    n = len(args)
    arr = st.newobj("argv", 8 * (n + 1), "zero")
    for i, w in enumerate(args):
        st.store(P(arr.obj, 8 * i), 8, newstr(st, w, "arg%d" % i))
    st.store(P(arr.obj, 8 * n), 8, 0)
    return I, I.run(st, "main", [n, arr])


# ---------------------------------------------------------------- shells
class Ambiguous(Exception):
    """raised with (byte, character) when the meaning of the command depends on byte == character"""

    def __init__(self, m, split=None):
        Exception.__init__(self, m)
        self.split = split


def may(st, c, ch):
    if isc(c):
        return c == ch
    r = st.decide(T.cmp_("eq", 8, c, ch))
    if r is None:
        return None
    return bool(r)


SPECIAL = "|&;<>()$`\"'*?[]#~!{}^=%\\ \t\n"


def sh_words(st, cmd):
    """words of a simple command as a POSIX shell sees them; Ambiguous if a byte could be special"""
    words = []
    cur = None
    i = 0
    n = len(cmd)

    def isch(c, chars):
        for x in chars:
            r = may(st, c, ord(x))
            if r:
                return x
            if r is None:
                raise Ambiguous("the byte <%s> may be %r, which the shell interprets" % (c.args[0] if c.op == "sym" else "?", x), (c, ord(x)))
        return None
    while i < n:
        c = cmd[i]
        x = isch(c, "\n \t\"'\\|&;<>()$`*?[#~!{}%^]=") if not isc(c) else chr(c)
        if x == "'":
            if cur is None:
                cur = []
            i += 1
            while True:
                if i >= n:
                    raise Ambiguous("unterminated quote")
                if isch(cmd[i], "'"):
                    break
                cur.append(cmd[i])
                i += 1
            i += 1
            continue
        if x == '"':
            if cur is None:
                cur = []
            i += 1
            while True:
                if i >= n:
                    raise Ambiguous("unterminated quote")
                y = isch(cmd[i], "\"$`\\")
                if y == '"':
                    break
                if y in ("$", "`"):
                    raise Ambiguous("%r is expanded inside double quotes" % y)
                if y == "\\":
                    if i + 1 < n and isch(cmd[i + 1], "$`\"\\\n"):
                        i += 1
                cur.append(cmd[i])
                i += 1
            i += 1
            continue
        if x == "\\":
            if i + 1 >= n:
                raise Ambiguous("trailing backslash")
            if cur is None:
                cur = []
            if isch(cmd[i + 1], "\n"):
                i += 2
                continue
            cur.append(cmd[i + 1])
            i += 2
            continue
        if x in (" ", "\t"):
            if cur is not None:
                words.append(tuple(cur))
                cur = None
            i += 1
            continue
        if x is not None and x in "|&;<>()$`*?[\n":
            raise Ambiguous("%r is interpreted by the shell" % x)
        if x is not None and x in "#~" and cur is None:
            raise Ambiguous("%r at the start of a word is interpreted by the shell" % x)
        if x == "{" or (x == "!" and cur is None and not words):
            raise Ambiguous("%r is interpreted by the shell" % x)
        if x == "=" and not words:
            raise Ambiguous("'=' in the command name makes it an assignment")
        if cur is None:
            cur = []
        cur.append(c)
        i += 1
    if cur is not None:
        words.append(tuple(cur))
    return words


def ms_words(st, cmd):
    """words as the Microsoft C run-time (and smlrc's own start-up code) splits a command line"""
    words = []
    cur = None
    i = 0
    n = len(cmd)
    inq = False

    def isch(c, chars):
        for x in chars:
            r = may(st, c, ord(x))
            if r:
                return x
            if r is None:
                raise Ambiguous("the byte <%s> may be %r, which is special on the command line" % (c.args[0] if c.op == "sym" else "?", x), (c, ord(x)))
        return None
    while i < n:
        x = isch(cmd[i], "\"\\ \t" + ("" if inq else "<>|&^"))
        if x == "\\":
            k = 0
            while i < n and isch(cmd[i], "\\"):
                k += 1
                i += 1
            if cur is None:
                cur = []
            if i < n and isch(cmd[i], '"'):
                cur += [92] * (k // 2)
                if k % 2:
                    cur.append(34)
                    i += 1
            else:
                cur += [92] * k
            continue
        if x == '"':
            if cur is None:
                cur = []
            inq = not inq
            i += 1
            continue
        if x in (" ", "\t") and not inq:
            if cur is not None:
                words.append(tuple(cur))
                cur = None
            i += 1
            continue
        if x is not None and x in "<>|&^" and not inq:
            raise Ambiguous("%r is interpreted by the command processor" % x)
        if cur is None:
            cur = []
        cur.append(cmd[i])
        i += 1
    if cur is not None:
        words.append(tuple(cur))
    return words


def split(st, sp):
    """the two refinements of a final state on byte == character"""
    c, ch = sp
    out = []
    for val in (1, 0):
        s2 = st.fork()
        for o in s2.mem.values():
            o.owner = None
        if s2.assume(T.cmp_("eq", 8, c, ch), val) is not False:
            out.append(s2)
    return out


def canon(st, w):
    """bytes known to be equal to a constant are replaced by it"""
    out = []
    for c in w:
        if not isc(c):
            lo, hi = st.ival(c, 8)
            if lo == hi:
                c = lo & 255
            else:
                for f, v in st.facts.items():
                    if v == 1 and f.op == "cmp" and f.args[0] == "eq" and f.args[3] == 8:
                        if f.args[1] is c and isc(f.args[2]):
                            c = f.args[2]
                            break
                        if f.args[2] is c and isc(f.args[1]):
                            c = f.args[1]
                            break
        out.append(c)
    return tuple(out)
