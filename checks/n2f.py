"""NASM-to-FASM wrapper: line translation, section order, failures."""
import itertools
import terms as T, build, drv, par, stdio
from terms import isc, mask
from drv import W, low, show
from sai import P, AnalysisError, Forks, isfault

_M = {}


def mod():
    if not _M:
        _M[0] = build.load("n2f", libc=True)
    return _M[0]


# ---- character streams
def h_fgetc(I, st, a, line):
    name, pos, mode = stdio.handle(st, a[0], "read", line)
    fp, size = st.user["files"][name]
    if st.user["rerr"] == a[0].obj or pos >= size:
        stdio.uset(st, "eof", a[0].obj, True)
        return mask(32)
    s2 = onceper(st, "fgetc", line)
    v = st.load(P(fp.obj, pos), 1)
    stdio.uset(st, "fh", a[0].obj, (name, pos + 1, mode))
    v = T.zext(8, v, 32)
    if s2 is not None:
        s2.user["rerr"] = a[0].obj
        return stdio.forkres(st, s2, v, mask(32))
    return v


def onceper(st, what, line):
    if st.user["fail"] != "armed" or (what, line) in st.user["tried"]:
        return None
    st.user["tried"] = st.user["tried"] | {(what, line)}
    return stdio.maybefail(st, what, line, None, None)


def h_ungetc(I, st, a, line):
    name, pos, mode = stdio.handle(st, a[1], "read", line)
    if isc(a[0]) and a[0] == mask(32):
        return mask(32)
    stdio.uset(st, "fh", a[1].obj, (name, pos - 1, mode))
    stdio.uset(st, "eof", a[1].obj, False)
    return a[0]


def h_fseek(I, st, a, line):
    stdio.uset(st, "eof", a[0].obj, False)
    return stdio.h_fseek(I, st, a, line)


def h_ftell(I, st, a, line):
    pos = stdio.handle(st, a[0], "ftell", line)[1]
    s2 = onceper(st, "ftell", line)
    if s2 is not None:
        return stdio.forkres(st, s2, pos, mask(64))
    return pos


def h_feof(I, st, a, line):
    stdio.handle(st, a[0], "feof", line)
    return int(bool(st.user["eof"].get(a[0].obj)) and st.user["rerr"] != a[0].obj)


def h_ferror(I, st, a, line):
    stdio.handle(st, a[0], "ferror", line)
    return int(st.user["rerr"] == a[0].obj or st.user["werr"] == a[0].obj)


def put(st, p, data, what, line):
    name, pos, mode = stdio.handle(st, p, "write", line)
    s2 = onceper(st, what, line)
    if st.user["werr"] == p.obj:
        return mask(32)
    if data:
        stdio.emit(st, name, pos, len(data), "bytes", tuple(data), line)
        stdio.uset(st, "fh", p.obj, (name, pos + len(data), mode))
    if s2 is not None:
        # buffered output: the failure may show at once, or only when the stream is closed
        s3 = s2.fork()
        for o in s3.mem.values():
            o.owner = None
        s2.user["werr"] = p.obj
        s3.user["latent"] = p.obj
        return Forks([(st, 1), (s2, mask(32)), (s3, 1)])
    return 1


def h_fputc(I, st, a, line):
    return put(st, a[1], [a[0] & 255 if isc(a[0]) else T.trunc(32, a[0], 8)], "fputc", line)


def h_fputs(I, st, a, line):
    return put(st, a[1], drv.getstr(st, a[0]), "fputs", line)


def h_fprintf(I, st, a, line):
    tmp = st.newobj("fmt", 400, "unk")
    n = drv.h_sprintf(I, st, [tmp] + list(a[1:]), line)
    return put(st, a[0], [st.load(P(tmp.obj, i), 1) for i in range(n)], "fprintf", line)


def h_fclose(I, st, a, line):
    name, pos, mode = stdio.handle(st, a[0], "close", line)
    bad = st.user["werr"] == a[0].obj or st.user["latent"] == a[0].obj
    d = dict(st.user["fh"])
    del d[a[0].obj]
    st.user["fh"] = d
    st.user["ev"] = st.user["ev"] + (("close", name, line),)
    if bad:
        return mask(32)
    if mode[0] in "wa":
        s2 = stdio.maybefail(st, "fclose", line, 0, 0)
        if s2 is not None:
            return stdio.forkres(st, s2, 0, mask(32))
    return 0


def h_tmpnam(I, st, a, line):
    s2 = stdio.maybefail(st, "tmpnam", line, 0, 0)
    p = drv.newstr(st, "/tmp/tmpname", "tmpnam")
    if s2 is not None:
        return stdio.forkres(st, s2, p, 0)
    return p


HOOKS = {"fgetc": h_fgetc, "getc": h_fgetc, "ungetc": h_ungetc, "fseek": h_fseek, "ftell": h_ftell, "feof": h_feof, "ferror": h_ferror, "fputc": h_fputc, "putc": h_fputc,
         "fputs": h_fputs, "fprintf": h_fprintf, "fclose": h_fclose, "tmpnam": h_tmpnam}


def run(args, text, fail=None, failmem=False, recover=None):
    M = mod()
    t = text if isinstance(text, W) else W(*text)
    ents = [(i, 1, c) for i, c in enumerate(t.b)]

    def init(st):
        st.ivals.update(t.iv)
    hk = dict(HOOKS)
    st0 = {"eof": {}, "rerr": None, "werr": None, "latent": None, "tried": frozenset()}
    return drv.run(M, args, files=[(W("in.asm"), len(t.b), ents, "zero")], fail=fail, failmem=failmem, recover=recover, hooks=hk, user=st0, ivals=t.iv,
                   maxsteps=400000, maxstates=40000)


# ---- the documented translation
ORDER = [".text", ".rodata", ".data", ".bss"]
REPL = {"alignb": "align", "global": "public", "resb": "rb", "resw": "rw", "resd": "rd", "extern": "extrn"}


class Doc:
    """input document: list of lines; a line is (indent, first word, separator, rest, line end)"""

    def __init__(self, key, lines, fmt="elf", refuse=None):
        self.key, self.lines, self.fmt, self.refuse = key, lines, fmt, refuse

    def text(self):
        parts = []
        for ind, wd, sep, rest, end in self.lines:
            parts += [ind, wd, sep, rest, end]
        return W(*[p for p in parts if not (isinstance(p, str) and not p)])


def wstr(x):
    b = (W(x) if not isinstance(x, W) else x).b if not isinstance(x, tuple) else W(x).b
    return b


def expected(doc):
    """[(section or None, [lines])]; a line is a byte tuple"""
    secs = {}
    cur = None
    order = []
    for ind, wd, sep, rest, end in doc.lines:
        w = show(wstr(wd))
        if w == "section":
            cur = show(wstr(rest)).split(" ")[0].split("\t")[0]
            if cur not in secs:
                secs[cur] = []
                order.append(cur)
            continue
        if cur not in secs:
            secs[cur] = []
        if w.startswith(";") or (not w and not wstr(rest)):
            continue
        if w == "global" and doc.fmt == "bin":
            continue
        if w == "bits":
            l = wstr("use") + wstr(rest)
        else:
            l = (wstr(REPL[w]) if w in REPL else wstr(wd)) + wstr(sep) + wstr(rest)
        secs[cur].append(l)
    out = []
    if secs.get(None):
        out.append((None, secs[None]))
    for s in ORDER + sorted(x for x in order if x not in ORDER):
        if s in secs and s in order:
            out.append((s, secs[s]))
    return out


def parse(st, data, fmt):
    """what FASM makes of the output: format line, then sections with lines"""
    lines, cur = [], []
    for c in data:
        if isc(c) and c == 10:
            lines.append(tuple(cur))
            cur = []
        else:
            cur.append(c)
    if cur:
        lines.append(tuple(cur))
    out = []
    sec, ls = None, []
    first = True
    for l in lines:
        i = 0
        while i < len(l) and isc(l[i]) and l[i] in (32, 9):
            i += 1
        l = l[i:]
        if not l:
            continue
        s = show(l)
        if s.startswith(";"):
            continue
        if first and s == "format elf":
            out.append("elf")
            first = False
            continue
        first = False
        if s.startswith("section \""):
            if ls or sec is not None:
                out.append((sec, ls))
            n = s[9:].index('"')
            sec, ls = s[9:9 + n] + s[10 + n:], []
            continue
        ls.append(l)
    if ls or sec is not None:
        out.append((sec, ls))
    return out


ATTR = {".text": " executable", ".data": " writable", ".bss": " writable"}


def docs(thorough):
    w = low("w", 2)
    v = W(("v", 2, 33, 126))
    x = W(("x", 2, 97, 122))
    n = W(("n", 2, 48, 57))
    out = []

    def sect(nm, ind="", sep=" ", end="\n"):
        return (ind, "section", sep, nm, end)
    plain = [("\t", "mov", "\t", W("eax, ") + n, "\n"), ("", w + ":", "", "", "\n"), (" ", "db", " ", W('"a;b ') + v + '"', "\n"),
             ("  \t ", v, " ", W("") + x + ", [" + w + "+" + n + "]", "\n"), ("", "", "", "", "\n"), ("\t", ";", "", v, "\n"), ("", v, "", "", "\n"),
             ("        ", "dd", "\t\t", x + " ; " + w, "\n")]
    dirs = [("\t", d, s, w, "\n") for d in list(REPL) + ["bits"] for s in (" ", "\t", "  ")]
    near = [("", d, " ", w, "\n") for k in list(REPL) + ["bits", "section"] for d in (k + "s", k[:-1], k.upper(), "_" + k)]
    near += [("", k + ":", "", "", "\n") for k in ("alignb", "global", "bits")]
    for fmt in ("asm", "elf", "bin"):
        for i, l in enumerate(plain + dirs + near):
            out.append(Doc("line:%s:%d" % (fmt, i), [l, ("", "nop", "", "", "\n")], fmt))
        # fragments in every order
        names = [".text", ".rodata", ".data", ".bss", ".zz", ".aa"]
        k = 0
        perms = list(itertools.product(names, repeat=3)) if thorough or fmt == "elf" else list(itertools.permutations(names, 2))
        for p in perms:
            ls = [("", "l0", " ", w, "\n")]
            for i, nm in enumerate(p):
                ls.append(sect(nm))
                ls.append(("\t", "i%d" % i, " ", x, "\n"))
                if i == 1:
                    ls.append(("\t", "resb", " ", n, "\n"))
            out.append(Doc("frag:%s:%s" % (fmt, "".join(p)), ls, fmt))
    for end in ("\n", "\r\n", "\r"):
        for last in ("", end):
            for ind in ("", "\t", "   "):
                ls = [("", "bits", " ", n, end), sect(".data", ind, "\t", end), (ind, "alignb", " ", n, end), sect(".text", ind, " ", end),
                      ("", "ret", "", "", end), ("", "", "", "", end), sect(".data", ind, " ", end), (ind, "dd", " ", x, last)]
                out.append(Doc("eol:%r%r%r" % (end, last, ind), ls, "elf"))
    out.append(Doc("emptyfrag", [sect(".text"), sect(".data"), ("", "dd", " ", x, "\n"), sect(".text"), ("", "ret", "", "", "")], "elf"))
    out.append(Doc("lastsec", [("", "nop", "", "", "\n"), sect(".text", end="")], "elf"))
    out.append(Doc("trail", [sect(".text align=16"), ("", "nop", "", "", "\n"), sect(".data\tx"), ("", "nop", "", "", "\n")], "asm"))
    for ln in (1, 2, 30, 31, 32, 33, 34, 40):
        nm = "." + "n" * (ln - 1)
        out.append(Doc("name%d" % ln, [sect(nm), ("", "nop", "", "", "\n"), sect(".text"), ("", "hlt", "", "", "\n")], "elf", refuse=ln > 32))
    out.append(Doc("noname", [("", "section", " ", "", "\n"), ("", "nop", "", "", "\n")], "elf", refuse=True))
    for c in (1, 30, 31, 32, 33, 35):
        ls = []
        for i in range(c):
            ls += [sect(".s%02d" % i), ("", "d%d" % i, "", "", "\n")]
        out.append(Doc("secs%d" % c, ls, "asm", refuse=None if c < 32 else "any" if c == 32 else True))
    out.append(Doc("long", [("", "w" * 60, " ", W("y" * 300) + x, "\n"), ("", "section", " ", ".text", "\n"), ("\t" * 20, "z" * 9, "", "", "\n")], "asm"))
    return out


_D = None


def n01_one(job):
    i, th = job
    global _D
    if _D is None:
        _D = docs(th)
    d = _D[i]
    args = ["n2f", "-f", d.fmt, "in.asm", "-o", "out"]
    v = []

    def recover(s, e):
        if isfault(e):
            v.append(("overrun", "main", str(e)[:140]))
            return True
        return False
    I, fin = run(args, d.text(), recover=recover)
    for st in fin:
        ok = st.status == "ret" and st.ret == 0
        bad = isinstance(st.status, tuple) and st.status[1] not in (0,)
        if d.refuse:
            if d.refuse is True and not bad:
                v.append(("accepted", "main", "%s is not refused" % d.key))
            if bad:
                continue
        if not ok:
            v.append(("rejected", "main", "a valid input is rejected: %s" % (st.user["io"][-1:],)))
            continue
        name = "out" if d.fmt == "asm" else "/tmp/tmpname"
        data = []
        for pos, k, kd, dt, *_ in st.user["out"].get(name, ()):
            data += [y for y in drv.canon(st, dt)]
        got = parse(st, data, d.fmt)
        exp = []
        if d.fmt == "elf":
            exp.append("elf")
        e = expected(d)
        if d.fmt == "bin":
            ls = [l for _, x in e for l in x]
            if ls:
                exp.append((None, ls))
        else:
            exp += [(s if s is None else s + ATTR.get(s, ""), ls) for s, ls in e]
        exp = [x if x == "elf" else (x[0], [drop(st, drv.canon(st, l)) for l in x[1]]) for x in exp]
        exp = [x if x == "elf" else (x[0], [l for l in x[1] if l is not None]) for x in exp]
        exp = [x for x in exp if x == "elf" or x[0] is not None or x[1]]
        if got != exp:
            v.append(("text", "main", "translated text differs: %s, should be %s" % (txt(got), txt(exp))))
    return d.key + ":" + d.fmt, v, len(fin)


def drop(st, l):
    """a line whose first unknown byte turned out to be a comment sign"""
    return None if l and isc(l[0]) and l[0] == 59 else l


def txt(x):
    return "; ".join(y if isinstance(y, str) else "[%s] %s" % (y[0], " | ".join(show(l) for l in y[1])) for y in x)[:200]


def translate(R):
    R.files = ("n2f.c",)
    mod()
    D = docs(R.thorough)
    for key, v, n in par.pmap(n01_one, [(i, R.thorough) for i in range(len(D))], 4):
        R.count("documents")
        R.count("paths", n)
        R.sample(key)
        for k, w, m in v[:2]:
            R.violation("n2f:%s|%s" % (key, k), w, m + " [%s]" % key)
    R.need("documents", 350)
    R.rule("Abstract interpretation of the converter over assembly documents with symbolic identifiers, operands and strings; the output text is parsed back "
           "(sections, directives, lines) and compared with the documented translation.")


def cmd_bad(st, sysn, out):
    want = [wstr("fasm"), wstr("/tmp/tmpname")] + ([out] if out else [])
    if len(sysn) != 1:
        return [("cmd", "main", "%d assembler runs" % len(sysn))]
    try:
        got = [drv.canon(st, w) for w in drv.sh_words(st, sysn[0][1])]
    except drv.Ambiguous as x:
        if x.split:
            return [y for s2 in drv.split(st, x.split) for y in cmd_bad(s2, sysn, out)]
        return [("cmd", "fassemble", str(x))]
    if got != [drv.canon(st, w) for w in want]:
        return [("cmd", "fassemble", "runs %s instead of %s" % (" ".join(show(w) for w in got), " ".join(show(w) for w in want)))]
    return []


def n02_jobs(thorough):
    out = []
    for fmt in ("asm", "elf", "bin"):
        for o in (True, False):
            if fmt == "asm" and not o:
                continue
            for w in ("io", "mem"):
                out.append((fmt, o, w))
    for n in range(1, 4 if thorough else 3):
        out.append(("elf", n, "name"))
    return out


def n02_one(job):
    fmt, o, what = job
    if what == "name":
        w = W("z", ("w", o, 1, 255))
        v = []

        def rec(s, e):
            if isfault(e):
                v.append(("overrun", "fassemble", str(e)[:120]))
                return True
            return False
        I, fin = run(["n2f", "-f", "elf", "in.asm", "-o", w], W("nop"), recover=rec)
        for st in fin:
            v += cmd_bad(st, [e for e in st.user["ev"] if e[0] == "system"], w.b)
        return "nname:%d" % o, v, len(fin), 0
    key = "nfail:%s:%s:%s" % (fmt, "out" if o else "noout", what)
    x = low("x", 2)
    text = W("bits 32\n", x, " db 1\nsection .data\n\tresb 4\n  global ", x, "\r\n;", x, "\nsection .text\nalignb 4\nextern ", x, "\n resw 1\n resd 2\nret")
    args = ["n2f", "-f", fmt, "in.asm"] + (["-o", "out"] if o else [])
    v = []

    def recover(s, e):
        f = s.user.get("fail")
        if not isinstance(f, tuple):
            return False
        v.append(("continues:%s:%d" % (f[0], f[1]), "%s:%d" % (f[2][-1][0], f[1]), "after a failing %s the converter %s (%s)" % (f[0], "does not terminate" if "step budget" in str(e) else "goes on with undefined data", str(e)[:80])))
        return True
    I, fin = run(args, text, fail="armed", failmem=what == "mem", recover=recover)
    pts = 0
    for st in fin:
        f = st.user["fail"]
        ok = st.status == "ret" and st.ret == 0 or st.status == ("exit", 0)
        ev = st.user["ev"]
        rem = [show(e[1]) for e in ev if e[0] == "remove"]
        sysn = [e for e in ev if e[0] == "system"]
        if not isinstance(f, tuple):
            if not ok:
                v.append(("rejected", "main", "a valid run is rejected"))
            if fmt != "asm":
                v += cmd_bad(st, sysn, wstr("out") if o else None)
                if "/tmp/tmpname" not in rem:
                    v.append(("temp", "main", "the intermediate file is left behind"))
                if "out" in rem:
                    v.append(("rmout", "main", "the output is deleted"))
            elif sysn or rem:
                v.append(("extra", "main", "unexpected command or deletion"))
            continue
        pts += 1
        op, line, fr = f
        w = "%s:%d" % (fr[-1][0], line)
        if ok:
            v.append(("ignored:%s:%s" % (op, fr[-1][0]), w, "a failing %s is ignored: the converter reports success" % op))
            continue
        if op != "system" and sysn and st.user["out"].get("/tmp/tmpname") and op in ("fputc", "fputs", "fprintf", "fgetc", "fseek", "fclose"):
            v.append(("late:" + op, w, "an incomplete intermediate file is assembled after a failing %s" % op))
        if not any(e[0] == "print" and e[1].strip() for e in st.user["io"]):
            v.append(("silent:" + op, w, "no diagnostic after a failing %s" % op))
        made = [show(e[1]) for e in ev if e[0] == "create"]
        for m in made:
            if m not in rem and not (op == "fopen"):
                v.append(("left:%s" % op, w, "the incomplete file %s is left behind after a failing %s" % (m, op)))
        if o and fmt != "asm" and sysn and "out" not in rem:
            v.append(("left:%s" % op, w, "the output of the failed assembler is left behind"))
    return key, v, len(fin), pts


def failures(R):
    R.files = ("n2f.c",)
    mod()
    for key, v, n, pts in par.pmap(n02_one, n02_jobs(R.thorough), 1):
        R.count("command lines")
        R.count("paths", n)
        R.count("failure points", pts)
        R.sample(key)
        for k, w, m in v[:4]:
            R.violation("%s|%s" % (key, k), w, m)
    R.need("failure points", 100)
    R.rule("Abstract interpretation of the converter with every open, read, write, close, allocation and assembler run failing once (write errors may surface at "
           "once or only at close): each such path ends in a diagnostic, a failing status and no leftover files.")
