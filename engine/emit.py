"""Hooks that turn the compiler's text output primitives into residual output.

Residual output is a flat string in which every symbolic number or character
is a placeholder \x01<index>\x02; the placeholders map to Herbrand terms.
"""
import re
import terms as T
from terms import isc, sgn, mask
from sai import P, F, AnalysisError, END

NUM = re.compile("\x01(\\d+)\x02")


class Out(str):
    """one piece of output with the call chain that emits it"""
    loc = ""

    def __new__(cls, text, loc):
        o = str.__new__(cls, text)
        o.loc = loc
        return o


def chain(st, line, depth=3):
    fr = st.frames
    ln = line
    out = []
    for f in reversed(fr[-depth:]):
        out.append("%s:%d" % (f.fn.name, ln))
        ln = f.callline
    return " < ".join(out)


def listing(st, holes):
    """output lines with the source location of the emission of each line"""
    res = []
    cur, loc = "", None
    for o in st.out:
        for piece in re.split(r"(?<=\n)", o):
            if not piece:
                continue
            if loc is None:
                loc = getattr(o, "loc", "")
            cur += piece
            if cur.endswith("\n"):
                res.append((cur.rstrip("\n"), loc))
                cur, loc = "", None
    if cur:
        res.append((cur, loc))

    def rep(mm):
        v, w, s = holes.vals[int(mm.group(1))]
        return "<%s>" % (v,)
    return "".join("%-44s ; %s\n" % (NUM.sub(rep, a).replace("\t", "  "), b) for a, b in res)


class Holes:
    def __init__(self):
        self.vals = []

    def new(self, v, w, signed):
        self.vals.append((v, w, signed))
        return "\x01%d\x02" % (len(self.vals) - 1)


def fmt(st, a, holes, getarg=None):
    f = st.cstr(a[0])
    out = []
    i = 0
    n = 1
    while i < len(f):
        c = f[i]
        if c != "%":
            out.append(c)
            i += 1
            continue
        m = re.match(r"%([-+ 0#]*)(\d*)(l*)([a-zA-Z%])", f[i:])
        if not m:
            raise AnalysisError("format %r" % f)
        fl, wd, _, cv = m.groups()
        i += m.end()
        if cv == "%":
            out.append("%")
            continue
        v = a[n]
        n += 1
        if cv == "s":
            s = st.cstr(v)
            out.append(s.rjust(int(wd)) if wd else s)
        elif cv == "c":
            if isc(v):
                out.append(chr(v & 255))
            else:
                out.append(holes.new(T.ext(32, v, 0, 8), 8, False))
        elif cv in "di":
            if isc(v):
                s = sgn(v, 32)
                out.append(("%+d" if "+" in fl else "%d") % s)
            else:
                out.append(("+" if "+" in fl else "") + holes.new(v, 32, True))
        elif cv in "uxXo":
            if isc(v):
                s = ("%" + {"u": "d"}.get(cv, cv)) % (v & mask(32))
                out.append(s.rjust(int(wd), "0" if "0" in fl and "-" not in fl else " ") if wd else s)
            else:
                out.append(holes.new(v, 32, False))
        else:
            raise AnalysisError("format %r" % f)
    return "".join(out)


def put(st, o):
    """write at the current file position"""
    cur = st.user.get("cur")
    if cur is None:
        st.out.append(o)
        return
    n = 0
    j = cur
    while j < len(st.out) and n < len(o):
        n += len(st.out[j])
        j += 1
    if n != len(o):
        st.user["badpatch"] = "%s: %d characters written over %d" % (o.loc, len(o), n)
    st.out[cur:j] = [o]
    st.user["cur"] = cur + 1 if cur + 1 < len(st.out) else None


def text_hooks(holes):
    def h_printf2(I, st, a, line):
        put(st, Out(fmt(st, a, holes), chain(st, line)))
        return 0

    def h_puts2(I, st, a, line):
        put(st, Out(st.cstr(a[0]) + "\n", chain(st, line)))
        return 0

    def h_fgetpos(I, st, a, line):
        st.store(a[1], 8, st.user["cur"] if st.user.get("cur") is not None else len(st.out))
        return 0

    def h_fsetpos(I, st, a, line):
        i = st.load(a[1], 8)
        st.user["cur"] = i if i < len(st.out) else None
        return 0

    return {"printf2": h_printf2, "puts2": h_puts2, "fgetpos": h_fgetpos, "fsetpos": h_fsetpos}
