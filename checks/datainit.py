"""Static data: initialisers, object layout and the bytes the assembler is given."""
import re, itertools
import terms as T, fe, emit, stmt, par
from terms import isc, mask
from emit import NUM
from sai import AnalysisError

FLOAT = True


# ---------------------------------------------------------------- C types of the model
class Lay:
    """C object layout for a word size and packing"""

    def __init__(self, word, pack=None, wide=2):
        self.W, self.pack = word, pack or word
        self.wide = wide

    def size(self, t):
        if isinstance(t, str):
            if t in ("char", "schar", "uchar"):
                return 1
            if t in ("short", "ushort"):
                return 2
            return self.W
        if t[0] in ("ptr", "fp"):
            return self.W
        if t[0] == "arr":
            return t[1] * self.size(t[2])
        return self.struct(t)[0]

    def align(self, t):
        if isinstance(t, str) or t[0] in ("ptr", "fp"):
            return self.size(t)
        if t[0] == "arr":
            return self.align(t[2])
        return self.struct(t)[1]

    def struct(self, t):
        """(size, alignment, [(name, offset, type)])"""
        _, kind, tag, ms = t
        off = end = 0
        al = 1
        out = []
        for n, mt in ms:
            a = min(self.align(mt), self.pack)
            al = max(al, a)
            o = 0 if kind == "union" else -(-off // a) * a
            out.append((n, o, mt))
            off = o + self.size(mt)
            end = max(end, off)
        return -(-end // al) * al, al, out


NAMES = {"schar": "signed char", "uchar": "unsigned char", "ushort": "unsigned short", "uint": "unsigned"}


def decl(t, name):
    """C declarator"""
    if isinstance(t, str):
        return NAMES.get(t, t) + " " + name
    if t[0] == "ptr":
        return decl(t[1], "*" + name) if isinstance(t[1], str) or t[1][0] != "arr" else decl(t[1], "(*%s)" % name)
    if t[0] == "fp":
        return "int (*%s)(int)" % name
    if t[0] == "arr":
        return decl(t[2], "%s[%s]" % (name, t[1] if t[1] is not None else ""))
    return "%s %s %s" % (t[1], t[2], name)


def sdef(t):
    return "%s %s { %s };" % (t[1], t[2], " ".join(decl(mt, n) + ";" for n, mt in t[3]))


def S(tag, *ms):
    return ("st", "struct", tag, tuple(ms))


def U(tag, *ms):
    return ("st", "union", tag, tuple(ms))


S1 = S("S1", ("a", "char"), ("b", "int"), ("c", "char"))
S2 = S("S2", ("x", S1), ("y", ("arr", 3, "char")), ("z", "short"))
S3 = S("S3", ("p", ("ptr", "char")), ("n", ("arr", 2, "int")), ("q", ("arr", 2, S1)))
S4 = S("S4", ("m", ("arr", 2, ("arr", 3, "char"))), ("e", "ushort"))
U1 = U("U1", ("c", "char"), ("i", "int"), ("t", "short"))
U2 = U("U2", ("s", S1), ("d", ("arr", 19, "char")))
U3 = U("U3", ("d", ("arr", 3, "char")), ("i", "int"))
S5 = S("S5", ("k", "char"), ("u", U2), ("w", ("arr", 2, U1)))
S6 = S("S6", ("s", "short"), ("a", ("arr", 5, "char")), ("f", ("fp",)), ("l", "char"))
S7 = S("S7", ("v", "uchar"))
STRUCTS = [S1, S2, S3, S4, U1, U2, U3, S5, S6, S7]

BASE = " ".join(sdef(s) for s in STRUCTS) + """
enum E { E1 = 7, E2 }; int g; char gc; unsigned char guc; int ga[5]; char gca[9]; int gm[3][4]; struct S2 gs; struct S3 gs3; struct S1 gsa[4]; char* gp; extern int fn(int); """
GOBJ = {"g": "int", "gc": "char", "guc": "uchar", "ga": ("arr", 5, "int"), "gca": ("arr", 9, "char"), "gm": ("arr", 3, ("arr", 4, "int")), "gs": S2, "gs3": S3,
        "gsa": ("arr", 4, S1), "gp": ("ptr", "char"), "fn": ("fn",)}


# ---------------------------------------------------------------- leaves
class Leaf:
    """an initialising expression: text, substituted tokens, and its value
    kind: int (value term 32, unsigned?), float, addr (symbol, offset), str (bytes, offset), bad (not constant)"""

    def __init__(self, text, kind, val=None, off=0, sub=None, uns=False):
        self.text, self.kind, self.val, self.off, self.sub, self.uns = text, kind, val, off, sub or {}, uns


class Excess(Exception):
    pass


def fillscalar(t, leaf, lay):
    """[(offset, size, value)] or raise Excess"""
    n = lay.size(t)
    isptr = not isinstance(t, str) and t[0] in ("ptr", "fp")
    if leaf.kind == "bad":
        raise Excess("not constant")
    if leaf.kind == "int":
        v = leaf.val
        if t == "float":
            v = T.fn("u2f" if leaf.uns else "i2f", 32, v)
        return [(0, n, v)]
    if leaf.kind == "float":
        if isptr:
            raise Excess("float to pointer")
        v = leaf.val
        if t != "float":
            v = T.fn("f2u" if t == "uint" else "f2i", 32, v)
        return [(0, n, v)]
    if leaf.kind in ("addr", "str"):
        if t == "float":
            raise Excess("pointer to float")
        if n != lay.W:
            raise Excess("address in a small object")
        return [(0, n, (leaf.kind, leaf.val, leaf.off))]
    raise AnalysisError("leaf")


def strbytes(text):
    return list(text.encode("latin-1"))


def ischar(t):
    return t in ("char", "schar", "uchar")


def iswide(t, lay):
    return t in ("short", "ushort") if lay.W == 4 and lay.wide == 2 else t in ("int", "uint")


def shift(vs, o):
    return [(a + o, n, v) for a, n, v in vs]


def fillstr(t, leaf, lay):
    """array of char from a string literal: values and element count"""
    if t[1] is not None and len(leaf.val) > t[1]:
        raise Excess("string too long")
    es = lay.size(t[2])
    return [(i * es, es, b) for i, b in enumerate(leaf.val)], t[1] if t[1] is not None else len(leaf.val) + 1


def isstr(x):
    return isinstance(x, Leaf) and x.kind in ("str", "wstr") and x.off == 0 and getattr(x, "lit", True) and x.text.rstrip().endswith('"')


def strfor(t, x, lay):
    """may the literal x initialise the array t?"""
    return isstr(x) and t[0] == "arr" and (ischar(t[2]) if x.kind == "str" else iswide(t[2], lay))


def fill(t, init, lay, top=False):
    """C11 6.7.9: values of an object of type t from an initialiser (Leaf or list); (values, size)"""
    if isinstance(t, str) or t[0] in ("ptr", "fp"):
        if isinstance(init, list):
            if len(init) != 1 or isinstance(init[0], list):
                raise Excess("scalar")
            init = init[0]
        return fillscalar(t, init, lay), lay.size(t)
    if isinstance(init, list) and len(init) == 1 and t[0] == "arr" and not isinstance(init[0], list) and strfor(t, init[0], lay):
        init = init[0]
    if isinstance(init, Leaf):
        if strfor(t, init, lay):
            v, n = fillstr(t, init, lay)
            return v, n * lay.size(t[2])
        raise Excess("aggregate needs braces")
    q = list(init)
    if not q:
        raise Excess("empty")
    v, n = consume(t, q, lay)
    if q:
        raise Excess("too many")
    return v, n


def consume(t, q, lay):
    """brace-elided aggregate: takes what it needs from q"""
    out = []
    if t[0] == "arr":
        es = lay.size(t[2])
        i = 0
        while q and (t[1] is None or i < t[1]):
            out += shift(member(t[2], q, lay), i * es)
            i += 1
        return out, (t[1] if t[1] is not None else i) * es
    size, al, ms = lay.struct(t)
    for n, o, mt in ms if t[1] == "struct" else ms[:1]:
        if not q:
            break
        out += shift(member(mt, q, lay), o)
    return out, size


def member(t, q, lay):
    if isinstance(t, str) or t[0] in ("ptr", "fp"):
        return fill(t, q.pop(0), lay)[0]
    if isinstance(q[0], list) or strfor(t, q[0], lay):
        return fill(t, q.pop(0), lay)[0]
    return consume(t, q, lay)[0]


def text(init):
    if isinstance(init, Leaf):
        return init.text
    return "{" + ", ".join(text(x) for x in init) + (init.trail if isinstance(init, Br) else "") + "}"


class Br(list):
    trail = ","


def leaves(init):
    if isinstance(init, Leaf):
        return [init]
    return [l for x in init for l in leaves(x)]


# ---------------------------------------------------------------- emitted data
class Mem:
    """sections as sequences of bytes groups, labels and alignments"""

    def __init__(self):
        self.sect = {}
        self.labels = {}      # name -> (section, index)
        self.globals = set()
        self.relocs = []

    def items(self, s):
        return self.sect.setdefault(s, [])


ATTR = re.compile(r"section\s+(\.\w+)(.*)$")
LABEL = re.compile(r"^([A-Za-z_.$@][\w.$@]*):$")
ADDR = re.compile(r"^([A-Za-z_.$@][\w.$@]*)(?:\s*([+-].*))?$")


class Asm(Exception):
    pass


def number(s, holes):
    s = s.strip()
    m = re.match(r"^([+-]?)\x01(\d+)\x02$", s)
    if m:
        v, w, sg = holes.vals[int(m.group(2))]
        v = T.sext(w, v, 32) if sg and w < 32 else (T.zext(w, v, 32) if w < 32 else v)
        return T.neg(32, v) if m.group(1) == "-" else v
    if re.match(r"^[+-]?\d+$", s):
        return int(s) & mask(32)
    raise Asm("operand %r" % s)


def splitops(s):
    out, cur, q = [], "", False
    for c in s:
        if c == '"':
            q = not q
        if c == "," and not q:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if q:
        raise Asm("unterminated string %r" % s)
    return out + [cur]


def parse(st, holes):
    M = Mem()
    cur = None
    for ln, loc in stmt.lines(st):
        ln = ln.strip()
        m = ATTR.match(ln) or re.match(r"(\.text|\.data|\.bss|\.rdata)()$", ln)
        if m:
            cur = m.group(1)
            continue
        if cur == ".text" or cur == ".fxnsz":
            continue
        w = ln.split(None, 1)
        op, rest = w[0], w[1] if len(w) > 1 else ""
        if op in ("bits", "extern"):
            continue
        if op == ".set":
            continue
        if op in ("global", ".globl"):
            M.globals.add(rest.strip())
            continue
        if cur is None:
            raise Asm("`%s` outside any section" % ln)
        L = M.items(cur)
        m = LABEL.match(ln)
        if m:
            if m.group(1) in M.labels:
                raise Asm("label %s defined twice" % m.group(1))
            M.labels[m.group(1)] = (cur, len(L))
            L.append(("label", m.group(1), 0, loc))
        elif op in ("align", "alignb"):
            L.append(("align", int(rest), 0, loc))
        elif op == "resb":
            L.append(("zero", None, int(rest), loc))
        elif op == "times":
            m = re.match(r"^(\d+)\s+db\s+0$", rest)
            if not m:
                raise Asm("directive `%s`" % ln)
            L.append(("zero", None, int(m.group(1)), loc))
        elif op == ".align":
            L.append(("align", 1 << int(rest), 0, loc))
        elif op == ".space":
            L.append(("zero", None, int(rest), loc))
        elif op == ".ascii":
            m = re.fullmatch(r'"((?:[^"\\]|\\[0-7]{3}|\\["\\])*)"', rest)
            if not m:
                raise Asm("string operand `%s`" % ln)
            for c in re.findall(r"\\[0-7]{3}|\\.|[^\\]", m.group(1)):
                v = ord(c) if len(c) == 1 else ord(c[1]) if len(c) == 2 else int(c[1:], 8)
                if v > 255:
                    raise Asm("string operand `%s`" % ln)
                L.append(("num", v, 1, loc))
        elif op in (".byte", ".half", ".word"):
            n = {".byte": 1, ".half": 2, ".word": 4}[op]
            o = rest.strip()
            m = ADDR.match(o)
            if m and not o[0].isdigit():
                L.append(("addr", (m.group(1), number(m.group(2), holes) if m.group(2) else 0), n, loc))
            else:
                L.append(("num", number(o, holes), n, loc))
        elif op in ("db", "dw", "dd"):
            n = {"db": 1, "dw": 2, "dd": 4}[op]
            for o in splitops(rest):
                o = o.strip()
                if o.startswith('"'):
                    if n != 1 or not o.endswith('"') or len(o) < 2:
                        raise Asm("string operand `%s`" % ln)
                    for c in o[1:-1]:
                        L.append(("num", ord(c), 1, loc))
                    continue
                m = ADDR.match(o)
                if m and not o[0].isdigit():
                    L.append(("addr", (m.group(1), number(m.group(2), holes) if m.group(2) else 0), n, loc))
                    if cur == ".relod":
                        M.relocs.append(m.group(1))
                else:
                    L.append(("num", number(o, holes), n, loc))
        else:
            raise Asm("unexpected directive `%s`" % ln)
    return M


def objbytes(M, label):
    """(alignment directives just before, [(offset, size, kind, value, loc)], emitted size, section, index past)"""
    if label not in M.labels:
        raise Asm("no label %s" % label)
    s, i = M.labels[label]
    L = M.sect[s]
    al = 1
    j = i - 1
    while j >= 0 and L[j][0] in ("label", "align"):
        if L[j][0] == "align":
            al = max(al, L[j][1])
        j -= 1
    out, off = [], 0
    i += 1
    while i < len(L):
        k, v, n, loc = L[i]
        if k == "label" and v not in M.relocs or k == "align":
            break
        if k == "label":
            out.append((off, 0, "reloc", v, loc))
        else:
            out.append((off, n, k, v, loc))
            off += n
        i += 1
    return al, out, off, s


def compare(M, label, vals, size, align, lay, model, strs, what, facts=None):
    """None or (message, where)"""
    al, out, n, sec = objbytes(M, label)
    loc = out[0][4] if out else ""
    if n != size:
        return "%s takes %d bytes instead of %d" % (what, n, size), (out[-1][4] if out else "")
    if al % align:
        return "%s is not aligned to %d" % (what, align), loc
    exp = {}
    for o, k, v in vals:
        exp[o] = (k, v)
    rel = {o for o, k, kind, v, l in out if kind == "reloc"}
    got = {}
    for o, k, kind, v, l in out:
        if kind == "reloc":
            continue
        if kind == "zero":
            for x in range(k):
                got[o + x] = (1, "num", 0, l)
        else:
            got[o] = (k, kind, v, l)
    seen = set()
    for o in sorted(got):
        k, kind, v, l = got[o]
        if o in exp:
            w, e = exp[o]
            if isinstance(e, tuple):
                if kind != "addr" or k != w:
                    return "%s: offset %d should hold the address of %s" % (what, o, e[1]), l
                if model == "huge" and o not in rel:
                    return "%s: the address at offset %d is not listed for the startup code" % (what, o), l
                lab, add = v
                if e[0] == "addr":
                    if lab not in ("_" + e[1], "$" + e[1], e[1] if model == "mips" else ""):
                        return "%s: offset %d refers to %s instead of %s" % (what, o, lab, e[1]), l
                else:
                    strs.append((lab, e[1], l))
                W8 = 8 * w
                if T.ext(32, add, 0, W8) != T.ext(32, e[2], 0, W8) and not (facts and facts(T.cmp_("eq", W8, T.ext(32, add, 0, W8), T.ext(32, e[2], 0, W8)))):
                    return "%s: the address at offset %d has displacement %s instead of %s" % (what, o, add, e[2]), l
                seen.add(o)
                continue
            if isc(e) and e == 0 and kind == "num" and isc(v) and v == 0:
                seen.add(o)
                continue
            if k != w or kind != "num":
                # smaller pieces
                if kind == "num" and k == 1 and isc(v):
                    ok = all(o + x in got and got[o + x][0] == 1 and got[o + x][1] == "num" and isc(got[o + x][2]) for x in range(w))
                    if ok and isc(e) and sum(got[o + x][2] << 8 * x for x in range(w)) == e & mask(8 * w):
                        seen.add(o)
                        for x in range(w):
                            exp.setdefault(o + x, (1, got[o + x][2]))
                        continue
                return "%s: offset %d holds %d-byte data instead of %d" % (what, o, k, w), l
            if T.ext(32, v, 0, 8 * k) != T.ext(32, e, 0, 8 * k):
                return "%s: offset %d holds %s instead of %s" % (what, o, T.ext(32, v, 0, 8 * k), T.ext(32, e, 0, 8 * k)), l
            if model == "huge" and o in rel:
                return "%s: offset %d is listed as an address" % (what, o), l
            seen.add(o)
        elif not (kind == "num" and isc(v) and v == 0):
            if any(a < o < a + w for a, (w, _) in exp.items()) and any(a in seen for a in exp):
                continue
            return "%s: offset %d should be zero" % (what, o), l
    for o in exp:
        if o not in got and not any(a < o < a + got[a][0] for a in got):
            return "%s: offset %d is missing" % (what, o), loc
        if o not in seen and not (isc(exp[o][1]) and exp[o][1] == 0):
            return "%s: offset %d is not initialised" % (what, o), loc
    return None


# ---------------------------------------------------------------- cases
MODELS = {"seg16": ("-seg16",), "seg32": ("-seg32",), "huge": ("-huge",), "unreal": ("-unreal",), "mips": (), "seg32e": ("-seg32", "-no-leading-underscore")}


def _every():
    """every byte value in a string literal, before a digit and before another escape"""
    out = []
    for lo in range(0, 256, 32):
        bs, tx = [], ""
        for c in range(lo, lo + 32):
            bs += [c, c, 48 + c % 8, c]
            tx += "\\%03o" % c * 2 + chr(48 + c % 8) + "\\%03o" % c
        out.append(Leaf('"%s"' % tx, "str", bs))
    return out


EVERY = _every()


class Gen:
    def __init__(self, model, F, pack=None):
        self.model = model
        self.F = F
        self.W = 2 if model == "seg16" else 4
        self.lay = Lay(self.W, pack)
        self.plain = Lay(self.W)
        self.pre = "" if model == "mips" else "_"
        self.fp = self.W == 4 and model != "mips"
        self.n = 0

    def const(self, kind="ci"):
        self.n += 1
        nm = "k%d" % self.n
        t = self.F.t
        if self.W == 2:
            s = T.sym(nm, 16)
            v = T.sext(16, s, 32) if kind == "ci" else T.zext(16, s, 32)
        else:
            v = T.sym(nm, 32)
        tok = {"ci": t.tokNumInt, "cu": t.tokNumUint, "cf": t.by.get("tokNumFloat")}[kind]
        return "@" + nm, {nm: [(tok, v)]}, v

    def ci(self, fmt="%s", f=None, kind="ci", uns=None):
        a, sub, v = self.const(kind)
        if kind == "cf":
            return Leaf(fmt % a, "float", f(v) if f else v, sub=sub)
        return Leaf(fmt % a, "int", f(v) if f else v, sub=sub, uns=(kind == "cu") if uns is None else uns)

    def ints(self):
        """integer constant expressions"""
        out = [self.ci(), self.ci(kind="cu"), self.ci("-%s", lambda v: T.neg(32, v)), self.ci("~%s", lambda v: T.not_(32, v)),
               Leaf("(char)200", "int", -56 & mask(32)), Leaf("(char)127", "int", 127), Leaf("(unsigned char)300", "int", 44), Leaf("-1", "int", mask(32)), Leaf("300", "int", 300), self.ci("%s + 5", lambda v: T.add(32, v, 5)), self.ci("(%s)"),
               self.ci("(int)%s", kind="cu", uns=False), self.ci("(unsigned)%s", uns=True),
               Leaf("E2", "int", 8), Leaf("sizeof(struct S2)", "int", self.plain.size(S2), uns=True), Leaf("sizeof gm / sizeof gm[0]", "int", 3, uns=True),
               Leaf("3 > 2", "int", 1), Leaf("0", "int", 0)]
        if self.W == 2:
            # negations and such are truncated to the word
            for l in out:
                if not isc(l.val):
                    l.val = T.ext(32, l.val, 0, 16)
                    l.val = T.zext(16, l.val, 32) if l.uns else T.sext(16, l.val, 32)
        return out

    def floats(self):
        return [self.ci(kind="cf"), self.ci("-%s", lambda v: T.fn("fneg", 32, v), kind="cf")] if self.fp else []

    def addrs(self):
        lay = self.plain
        W = self.W
        st = lambda t, n: [o for m, o, _ in lay.struct(t)[2] if m == n][0]
        out = [("&g", "g", 0), ("ga", "ga", 0), ("&ga[2]", "ga", 2 * W), ("ga + 3", "ga", 3 * W), ("3 + ga", "ga", 3 * W), ("ga - 1", "ga", -W), ("&ga[-1]", "ga", -W),
               ("gm[1]", "gm", 4 * W), ("&gm[1][2]", "gm", 6 * W), ("&gs.z", "gs", st(S2, "z")), ("&gs.x.b", "gs", st(S2, "x") + st(S1, "b")), ("gs.y", "gs", st(S2, "y")),
               ("&gsa[2].c", "gsa", 2 * lay.size(S1) + st(S1, "c")), ("fn", "fn", 0), ("&fn", "fn", 0), ("(char*)&g + 3", "g", 3), ("(int*)((char*)ga + 1)", "ga", 1),
               ("gca", "gca", 0), ("&gca[4]", "gca", 4), ("&gs", "gs", 0), ("(int)&g", "g", 0), ("(int)ga + 2", "ga", 2), ("&*&g", "g", 0), ("&(*(&gs)).y[1]", "gs", st(S2, "y") + 1),
               ("&gs3.q[1].b", "gs3", st(S3, "q") + lay.size(S1) + st(S1, "b"))]
        res = [Leaf(t, "addr", s, o & mask(32)) for t, s, o in out]
        a, sub, v = self.const()
        res.append(Leaf("gca + " + a, "addr", "gca", v, sub=sub))
        if W == 4:
            a, sub, v = self.const()
            res.append(Leaf("&ga[%s]" % a, "addr", "ga", T.mul(32, v, W), sub=sub))
        else:       # int is 16 bits: the index times the size would have to be cut first
            res += [Leaf("&ga[%d]" % k, "addr", "ga", k * W & mask(32)) for k in (0, 4, 16383, -16384)]
        return res

    def strings(self):
        return [Leaf('"abc"', "str", strbytes("abc")), Leaf('""', "str", []), Leaf('"ab" "cd"', "str", strbytes("abcd")), Leaf('"a\\"b\\\\c\\n"', "str", strbytes('a"b\\c\n')),
                Leaf('"x\\x7f\\xff\\1 y"', "str", [120, 0x7f, 0xff, 1, 32, 121]), Leaf('"~ \\t\\0z"', "str", [126, 32, 9, 0, 122]), Leaf('"%d;\'a,b"', "str", strbytes("%d;'a,b"))] + EVERY

    def bads(self):
        return [Leaf(x, "bad") for x in ("g", "ga[1]", "gs.z", "fn(1)", "*gp", "gp", "&ga[g]", "g + 1", "&g + g", "g ? 1 : 2", "&ga[1] - ga + g", "2 - (int)&g", "-(int)&g", "(int)&g * 2")]


def wrap(leafs):
    return list(leafs)


def scalar_cases(G):
    out = []
    ts = ["char", "uchar", "schar", "int", "uint"] + ["short", "ushort"] + (["float"] if G.fp else [])
    for t in ts:
        for l in G.ints() + G.floats() + (G.addrs()[:3] if t in ("int", "uint", "char", "float") else []) + (G.addrs()[20:22] if t == "uint" else []):
            out.append((t, l))
        out.append((t, [G.ci()]))
        out.append((t, [G.ci(), G.ci()]))
        for b in G.bads()[:4]:
            out.append((t, b))
    for t in (("ptr", "char"), ("ptr", "int")):
        for l in G.addrs() + [Leaf("0", "int", 0), Leaf("(void*)0", "int", 0)] + G.bads() + G.floats()[:1]:
            out.append((t, l))
    for l in G.strings() + [Leaf('"abcd" + 1', "str", strbytes("abcd"), 1), Leaf('&"abcd"[2]', "str", strbytes("abcd"), 2), Leaf('(char*)"q"', "str", strbytes("q"))]:
        out.append((("ptr", "char"), l))
    out.append((("ptr", S2), Leaf("&gs", "addr", "gs", 0)))
    out.append((("fp",), Leaf("fn", "addr", "fn", 0)))
    out.append((("fp",), Leaf("&fn", "addr", "fn", 0)))
    return out


def nscal(t):
    if isinstance(t, str) or t[0] in ("ptr", "fp"):
        return 1
    if t[0] == "arr":
        return t[1] * nscal(t[2])
    return nscal(t[3][0][1]) if t[1] == "union" else sum(nscal(m) for _, m in t[3])


def full(t, G):
    if isinstance(t, str):
        return G.ci()
    if t[0] == "ptr":
        return G.addrs()[7]
    if t[0] == "fp":
        return Leaf("fn", "addr", "fn", 0)
    if t[0] == "arr":
        return [full(t[2], G) for _ in range(t[1] or 2)]
    ms = t[3][:1] if t[1] == "union" else t[3]
    return [full(m, G) for _, m in ms]


def flat(i):
    return [l for l in leaves(i)]


def aggregates():
    A = lambda n, t: ("arr", n, t)
    return [A(3, "int"), A(5, "char"), A(3, "short"), A(2, A(3, "uchar")), A(2, A(2, A(2, "int"))), A(2, ("ptr", "char")), S1, S2, S3, S4, U1, U2, U3, S5, S6, S7,
            A(2, S1), A(2, S2), A(3, S7), A(2, U1), A(2, A(2, S1)), A(2, S4), A(3, ("fp",))]


def incomplete(t):
    return ("arr", None, t[2])


def agg_cases(G, thorough):
    out = []
    for t in aggregates():
        b = full(t, G)
        out.append((t, b))
        out.append((t, Br(b)))
        n = len(leaves(b))
        f = leaves(full(t, G))
        for k in range(1, n + 1) if thorough or n <= 8 else sorted({1, 2, 3, n // 2, n - 1, n}):
            out.append((t, leaves(full(t, G))[:k]))
        out.append((t, f + [G.ci()]))                   # too many
        out.append((t, full(t, G) + [G.ci()]))
        out.append((t, []))
        out.append((t, G.ci()))                         # braces missing
        # partly braced: each direct member braced, flat or cut short
        if not isinstance(b, Leaf):
            for i, x in enumerate(b):
                if isinstance(x, list):
                    c = full(t, G)
                    out.append((t, c[:i] + leaves(c[i]) + c[i + 1:]))
                    c = full(t, G)
                    out.append((t, c[:i] + [c[i][:1]] + c[i + 1:]))
                    c = full(t, G)
                    out.append((t, c[:i] + [Br(c[i])] + c[i + 1:]))
                    c = full(t, G)
                    out.append((t, c[:i] + [c[i]]))
                    c = full(t, G)
                    if any(isinstance(y, list) for y in c[i]):
                        j = [k for k, y in enumerate(c[i]) if isinstance(y, list)][0]
                        out.append((t, c[:i] + [c[i][:j] + leaves(c[i][j]) + c[i][j + 1:]] + c[i + 1:]))
        if t[0] == "arr":
            for k in (1, 2, 3):
                out.append((incomplete(t), [full(t[2], G) for _ in range(k)]))
            m = nscal(t[2])
            for k in sorted({1, m, m + 1, 2 * m}):
                out.append((incomplete(t), leaves([full(t[2], G), full(t[2], G)])[:k]))
    L = lambda s: Leaf('"%s"' % s, "str", strbytes(s))
    for t in ("char", "uchar", "schar"):
        for s in ("abc", "", "abcde"):
            for n in (None, 3, 5, 9):
                out.append((("arr", n, t), L(s)))
                out.append((("arr", n, t), [L(s)]))
    for l in G.strings():
        out.append((("arr", None, "char"), l))
        out.append((("arr", 20, "uchar"), l))
    out += [(("arr", 2, ("arr", 4, "char")), [L("ab"), L("cdef")]), (("arr", None, ("arr", 3, "char")), [L("ab"), [L("c")], [G.ci(), G.ci()]]),
            (("arr", 2, ("arr", 3, "char")), [L("abcd"), L("a")]), (S2, [[G.ci(), G.ci()], L("ab"), G.ci()]), (S2, [G.ci(), G.ci(), G.ci(), L("ab"), G.ci()]), (S4, [[L("ab"), L("c")], G.ci()]),
            (S4, [L("ab"), L("c"), G.ci()]), (U3, [L("ab")]), (U3, [[L("ab")]]), (S5, [G.ci(), [[G.ci()]], [G.ci()]]), (("arr", 3, "int"), [L("abc")] * 3),
            (("arr", 3, "int"), L("ab")), (S1, L("ab")), (("arr", None, ("ptr", "char")), [L("red"), Leaf("0", "int", 0), L("blue")]),
            (("arr", 2, ("ptr", "char")), [[L("red")], L("b")]), (S3, [L("name"), [G.ci(), G.ci()]]), (("arr", 2, S3), [[L("n1"), [G.ci()]], [L("n2")]])]
    ws = "ushort" if G.W == 4 else "uint"
    WL = lambda s: Leaf('L"%s"' % s, "wstr", strbytes(s))
    for n in (None, 2, 3, 6):
        out.append((("arr", n, ws), WL("abc")))
    out.append((("arr", 2, ("arr", 3, ws)), [WL("a"), WL("bc")]))
    out.append((("arr", 4, "char"), WL("a")))
    out.append((("arr", 4, ws), L("a")))
    return out


class Case:
    pass


_F = {}


def front(model):
    u = "smlrcm" if model == "mips" else "smlrc"
    if u not in _F:
        _F[u] = fe.FE(u)
    return _F[u]


def base(model):
    F = front(model)
    b = BASE if model != "seg16" else BASE
    return F, F.base(MODELS[model], b + " @here")


PRE = {"global": "%s = %s;", "static": "static %s = %s;", "local static": "void f(void) { static %s = %s; }"}


def labelof(st, F, M, kind):
    if kind == "local static":
        # the numeric label of x
        c = [l for l in M.labels if l not in M.relocs and re.match(r"^(L|\$L|\.\.@L)\d+$", l)]
        return c
    return None


def judge(G, F, st, holes, kind, t, init, vals, size, bad, src):
    if st.status != "fin":
        if not str(st.status).startswith("diag:"):
            return "analysis ends with %r" % (st.status,), ""
        if "nternal" in st.status:
            return "internal error %s" % st.status, st.user.get("errline", "")
        if bad:
            return None
        return "valid initialiser rejected (%s)" % st.status, st.user.get("errline", "")
    if bad:
        return "invalid initialiser (%s) accepted" % bad, ""
    if st.user.get("badpatch"):
        return st.user["badpatch"], ""
    try:
        M = parse(st, holes)
        pre = "$" if G.model == "seg32e" else G.pre
        al = G.lay.align(t)
        strs = []
        if kind == "local static":
            cands = [l for l in labelof(st, F, M, kind) if M.labels[l][0] == ".data"]
            if len(cands) != 1:
                return "found %d data objects" % len(cands), ""
            lab = cands[0]
        else:
            lab = pre + "x"
            if kind == "static" and lab in M.globals:
                return "a static object is exported", ""
            if kind == "global" and lab not in M.globals:
                return "an object with external linkage is not exported", ""
        if lab in M.labels and M.labels[lab][0] != ".data":
            return "the object is in section %s" % M.labels[lab][0], ""
        m = compare(M, lab, vals, size, al, G.lay, G.model if G.model in ("huge", "mips") else "", strs, "x", lambda c: isc(c) and bool(c) or not isc(c) and st.decide(c) is True)
        if m:
            return m
        for sl, bs, l in strs:
            if sl not in M.labels:
                return "string literal %s is missing" % sl, l
            m = compare(M, sl, [(i, 1, b) for i, b in enumerate(bs)], len(bs) + 1, 1, G.lay, "", [], "the string literal")
            if m:
                return m
    except Asm as e:
        return "bad assembly: %s" % e, ""
    return None


def expectation(G, t, init):
    """(values, size, reason it is invalid)"""
    try:
        v, n = fill(t, init, G.lay)
        return v, n, None
    except Excess as e:
        return None, None, str(e)


def run_case(G, F, st, kind, t, init):
    sub = {}
    for l in leaves(init):
        sub.update(l.sub)
    src = PRE[kind] % (decl(t, "x"), text(init))
    vals, size, bad = expectation(G, t, init)
    toks = F.lex(src, sub)
    sts, holes = F.resume(st, toks)
    out = []
    for s in sts:
        vs = vals
        if s.eqs and vals:
            vs = [(o, n, T.subst(v, s.eqs) if not isinstance(v, tuple) else (v[0], v[1], T.subst(v[2], s.eqs))) for o, n, v in vals]
        r = judge(G, F, s, holes, kind, t, init, vs, size, bad, src)
        if r:
            out.append((src, "%s" % r[0], r[1]))
            break
    return out, len(sts), bad


# ---------------------------------------------------------------- automatic objects
def auto_cases(G):
    out = []
    A = lambda n, t: ("arr", n, t)
    for t in (A(3, "int"), A(5, "char"), S1, S2, A(2, S1), U2, A(2, A(3, "uchar")), S3, S7, A(3, "short"), A(19, "char")):
        out.append((t, full(t, G)))
        out.append((t, leaves(full(t, G))[:2]))
    L = lambda s: Leaf('"%s"' % s, "str", strbytes(s))
    out += [(A(None, "char"), L("abcd")), (A(9, "char"), L("ab")), (A(None, "int"), [G.ci(), G.ci(), G.ci()]), (A(None, ("ptr", "char")), [L("x"), L("yz")]), (S1, [G.ci()] * 5), (A(None, S1), [[G.ci()], [G.ci(), G.ci()]])]
    return out


def auto_one(G, F, st, t, init):
    """aggregates: the code copies a static image of the right contents into the object"""
    import sai
    sub = {}
    for l in leaves(init):
        sub.update(l.sub)
    vals, size, bad = expectation(G, t, init)
    src = "void f(void) { char q; %s = %s; int r; q; x; r; }" % (decl(t, "x"), text(init))
    if isinstance(t, str) or t[0] != "arr":
        pass
    rec = []

    def genexpr(I, s, a, line):
        s.user["rpns"] = s.user.get("rpns", ()) + (tuple(F.rpn(s)),)
        s.user["syms"] = {n: v[2] for n, v in F.symbols(s).items() if v[1] == "local"}
        return 0
    sts, holes = F.resume(st, F.lex(src, sub), hooks={"GenExpr": genexpr})
    for s in sts:
        if s.status != "fin":
            if bad and str(s.status).startswith("diag:") and "nternal" not in s.status:
                continue
            return src, "valid initialiser rejected (%s)" % (s.status,), s.user.get("errline", "")
        if bad:
            return src, "invalid initialiser (%s) accepted" % bad, ""
        sy = {n: T.sgn(v, 32) if isc(v) else v for n, v in s.user.get("syms", {}).items()}
        rp = s.user.get("rpns", ())
        if not rp:
            return src, "no code initialises the object", ""
        n = [F.t.name.get(k, chr(k) if 32 < k < 127 else k) for k, v in rp[0]]
        W = G.W
        want = [ord("("), F.t.tokLocalOfs, ord(","), F.t.tokIdent, ord(","), None, ord(","), F.t.tokIdent, ord(")")]
        if len(rp[0]) != 9 or any(w is not None and w != k for w, (k, v) in zip(want, rp[0])):
            return src, "initialisation is not a copy of a static image: %s" % F.rpntext(s, rp[0]), ""
        dst, lab, cnt, fnl = rp[0][1][1], F.ident(s, rp[0][3][1]), rp[0][5][1], F.ident(s, rp[0][7][1])
        if rp[0][0][1] != 3 * W or rp[0][8][1] != 3 * W:
            return src, "the copy is called with %d bytes of arguments" % rp[0][0][1], ""
        if dst != sy.get("x"):
            return src, "the copy goes to frame offset %s instead of %s" % (dst, sy.get("x")), ""
        if cnt != size:
            return src, "the copy moves %s bytes instead of %d" % (cnt, size), ""
        if s.gget("StructCpyLabel") != int(fnl):
            return src, "the copy calls label %s instead of the copy helper" % fnl, ""
        a, b = sy["x"], sy["x"] + size
        for o, k in (("q", 1), ("r", W)):
            if not (sy[o] + k <= a or sy[o] >= b):
                return src, "x overlaps %s in the frame" % o, ""
        try:
            M = parse(s, holes)
            strs = []
            vs = vals
            if s.eqs:
                vs = [(o, n, T.subst(v, s.eqs) if not isinstance(v, tuple) else v) for o, n, v in vals]
            lb = [l for l in M.labels if re.sub(r"\D", "", l) == lab]
            if len(lb) != 1:
                return src, "the static image is not defined once", ""
            m = compare(M, lb[0], vs, size, 1, G.lay, G.model if G.model in ("huge", "mips") else "", strs, "the static image of x")
            if m:
                return (src,) + m
            for sl, bs, l in strs:
                m = compare(M, sl, [(i, 1, b) for i, b in enumerate(bs)], len(bs) + 1, 1, G.lay, "", [], "the string literal")
                if m:
                    return (src,) + m
        except Asm as e:
            return src, "bad assembly: %s" % e, ""
    return None


def autoscalar(G, F, st, t, l, braces):
    """`T x = e;` and `x = e;` give the same intermediate code, except that an integer object is stored as a whole word"""
    import sai
    d = decl(t, "x")
    pre = "void f(void) { int q; char qc; struct S1 qs, *qp; "

    def genexpr(I, s, a, line):
        s.user["rpns"] = s.user.get("rpns", ()) + (tuple(F.rpn(s)),)
        return 0
    res = []
    for src in (pre + "%s = %s; }" % (d, "{%s}" % l if braces else l), pre + "%s; x = %s; }" % (d, l)):
        sts, holes = F.resume(st.fork(), F.lex(src), hooks={"GenExpr": genexpr})
        if len(sts) != 1:
            raise AnalysisError("partitions in %s" % src)
        s = sts[0]
        res.append((s.status, s.user.get("rpns", ()), src, s.user.get("errline", "")))
    (s1, r1, src, e1), (s2, r2, _, _) = res
    if s2 == "fin" and s1 != "fin":
        return src, "valid initialiser rejected (%s)" % (s1,), e1
    if s1 == "fin" and s2 != "fin":
        return src, "initialiser accepted where the assignment is not (%s)" % (s2,), ""
    if s1 != "fin":
        return None
    if len(r1) != 1 or len(r2) != 1:
        return src, "%d expressions generated" % len(r1), ""
    a, b = list(r1[0]), list(r2[0])
    if a == b:
        return None
    if len(a) == len(b) and a[:-1] == b[:-1] and a[-1][0] == b[-1][0] and isinstance(t, str) and a[-1][1] == G.W:
        return None
    # a narrowing of the stored value differs only in upper bytes that are never read
    return src, "code %s differs from the assignment's %s" % (F.rpntext(sts[0], a), F.rpntext(sts[0], b)), ""


AUTOT = ["char", "uchar", "schar", "short", "ushort", "int", "uint", ("ptr", "char"), ("ptr", "int"), S1, ("ptr", S1)]
AUTOE = ["q", "qc", "q + 1", "5", "-1", "'a'", "300", "&q", "qc ? 1 : q", "fn(3)", "*gp", "ga", "gs.x", "qs", "*qp", "qp", "&qs", "g++", '"abc"', "&x", "q = 2", "0", "(char)q", "gsa[1]", "fn"]
AUTOF = ["gf", "1", "q", "gf + 1", "gc", "gu"]


# ---------------------------------------------------------------- uninitialised and layout
def plain_cases(G):
    out = []
    A = lambda n, t: ("arr", n, t)
    for t in ["char", "uchar", "short", "int", "uint", ("ptr", "char")] + (["float"] if G.fp else []) + [A(3, "int"), A(5, "char"), A(2, A(3, "short")), ("fp",)] + STRUCTS + [A(3, S1), A(2, S2), A(3, S4)]:
        for k in ("global", "static", "local static"):
            for b in (True, False):
                out.append((t, k, b))
    return out


def plain_one(G, F, t, kind, bss, st):
    src = {"global": "%s;", "static": "static %s;", "local static": "void f(void) { static %s; }"}[kind] % decl(t, "x")
    st.gset("UseBss", 1 if bss else 0)
    sts, holes = F.resume(st, F.lex(src + " char y = 1;"))
    for s in sts:
        if s.status != "fin":
            return src, "valid declaration rejected (%s)" % (s.status,), s.user.get("errline", "")
        try:
            M = parse(s, holes)
            labs = [l for l in M.labels if not re.match(r"^[_$]?(y|f)$", l)]
            if kind != "local static":
                labs = [l for l in labs if re.match(r"^[_$]?x$", l)]
            if len(labs) != 1:
                return src, "object defined %d times" % len(labs), ""
            sec = M.labels[labs[0]][0]
            if sec != (".bss" if bss else ".data"):
                return src, "object is in %s" % sec, ""
            al, out, n, sec = objbytes(M, labs[0])
            if n != G.lay.size(t):
                return src, "%d bytes reserved instead of %d" % (n, G.lay.size(t)), out[-1][4] if out else ""
            if al % G.lay.align(t):
                return src, "object is not aligned to %d" % G.lay.align(t), out[-1][4] if out else ""
            if any(not (k == "zero" or isc(v) and v == 0) for o, n, k, v, l in out):
                return src, "object is not zero", ""
            if (labs[0] in M.globals) != (kind == "global"):
                return src, "linkage of the object is wrong", ""
        except Asm as e:
            return src, "bad assembly: %s" % e, ""
    return None


PACKS = (1, 2, 4)


def pack_cases(G):
    T1 = S("P1", ("a", "char"), ("b", "int"), ("c", "short"), ("d", ("ptr", "char")), ("e", "char"))
    T2 = S("P2", ("a", "char"), ("n", T1), ("z", ("arr", 3, "short")))
    T3 = U("P3", ("a", ("arr", 5, "char")), ("i", "int"))
    T4 = S("P4", ("c", "char"), ("u", T3), ("s", ("arr", 2, T3)), ("k", "uchar"))
    T5 = S("P5", ("c", "char"), ("v", "short"), ("w", "char"))
    return [T1, T2, T3, T4, T5]


def path(t, lay, pre="x"):
    """(expression, offset, size) of each scalar member"""
    if isinstance(t, str) or t[0] in ("ptr", "fp"):
        return [(pre, 0, lay.size(t))]
    if t[0] == "arr":
        es = lay.size(t[2])
        return [(e, o + i * es, n) for i in range(t[1]) for e, o, n in path(t[2], lay, "%s[%d]" % (pre, i))]
    return [(e, o + mo, n) for nm, mo, mt in lay.struct(t)[2] for e, o, n in path(mt, lay, pre + "." + nm)]


def pack_one(G, F, st, pack):
    """members lie at their C offsets: addresses of members as initialisers"""
    ts = pack_cases(G)
    W = G.W
    st.gset("PragmaPackValue", pack or W)
    lay = Lay(W, pack)
    exps = [("sizeof(%s %s)" % (t[1], t[2]), t, None) for t in ts]
    src = " ".join(sdef(t) for t in ts) + " ".join(" %s;" % decl(t, "v" + t[2]) for t in ts)
    vals = []
    items = []
    for t in ts:
        items.append("(void*)sizeof(%s %s)" % (t[1], t[2]))
        vals.append(lay.size(t))
        for e, o, n in path(t, lay, "v" + t[2]):
            items.append("(void*)&" + e)
            vals.append(("addr", "v" + t[2], o))
            items.append("(void*)sizeof " + e)
            vals.append(n)
    src += " void* x[] = {" + ", ".join(items) + "};"
    sts, holes = F.resume(st, F.lex(src))
    for s in sts:
        if s.status != "fin":
            return "pack %s" % pack, "valid declarations rejected (%s)" % (s.status,), s.user.get("errline", "")
        try:
            M = parse(s, holes)
            m = compare(M, G.pre + "x", [(i * W, W, v) for i, v in enumerate(vals)], len(vals) * W, W, lay, G.model if G.model in ("huge", "mips") else "", [], "pack(%s)" % (pack or "default"))
            if m:
                i = re.search(r"offset (\d+)", m[0])
                return "pack %s" % pack, (items[int(i.group(1)) // W] + ": " if i else "") + m[0], m[1]
            for t in ts:
                al, out, n, sec = objbytes(M, G.pre + "v" + t[2])
                if n != lay.size(t):
                    return "pack %s" % pack, "%s takes %d bytes instead of %d" % (t[2], n, lay.size(t)), ""
        except Asm as e:
            return "pack %s" % pack, "bad assembly: %s" % e, ""
    return None


def job(j):
    kind, model, i, n, th = j
    F, st0 = base(model)
    G = Gen(model, F)
    if kind == "init":
        cs = [(t, x) for t, x in scalar_cases(G) + agg_cases(G, th)]
        cs = [(t, x, k) for q, (t, x) in enumerate(cs) for k in (("global", "static", "local static") if th or q % 9 == 0 else ("global",))]
        out, paths, bad = [], 0, 0
        mine = cs[i::n]
        for t, x, k in mine:
            o, p, b = run_case(G, F, st0.fork(), k, t, x)
            out += o
            paths += p
            bad += bool(b)
        return kind, model, len(mine), paths, bad, out
    if kind == "auto":
        cs = auto_cases(G)
        out = [r for r in (auto_one(G, F, st0.fork(), t, x) for t, x in cs[i::n]) if r]
        return kind, model, len(cs[i::n]), len(cs[i::n]), 0, out
    if kind == "autos":
        cs = [(t, e, b) for t in AUTOT for e in AUTOE for b in (0, 1) if not (b and not isinstance(t, str) and t[0] == "st")]
        if G.W == 2:
            cs = [c for c in cs if c[0] not in ("short", "ushort")]
        if th:
            mine = cs[i::n]
        else:
            mine = cs[i::n]
        out = [r for r in (autoscalar(G, F, st0.fork(), t, e, b) for t, e, b in mine) if r]
        return kind, model, len(mine), len(mine), 0, out
    if kind == "plain":
        cs = plain_cases(G)[i::n]
        out = [r for r in (plain_one(G, F, t, k, b, st0.fork()) for t, k, b in cs) if r]
        return kind, model, len(cs), len(cs), 0, out
    if kind == "pack":
        out = [r for r in (pack_one(G, F, st0.fork(), p) for p in (None,) + tuple(p for p in PACKS if p <= G.W)) if r]
        return kind, model, 4, 4, 0, out


def count(R, res):
    for kind, m, n, p, b, out in res:
        R.count({"init": "initialised objects", "auto": "automatic aggregates", "autos": "automatic scalars", "plain": "uninitialised objects", "pack": "packing rules"}[kind], n)
        R.count("paths", p)
        R.count("invalid initialisers", b)
        for src, msg, w in out:
            R.violation("data:%s:%s" % (m, re.sub(r"\s+", "_", src[-80:])), w or "ParseDecl", "`%s` (%s): %s" % (src[-160:], m, msg))


def mips(R):
    base("mips")
    n = 24
    jobs = [("init", "mips", i, n, R.thorough) for i in range(n)] + [("plain", "mips", i, 2, R.thorough) for i in range(2)] + [("pack", "mips", 0, 1, R.thorough)]
    jobs += [("auto", "mips", i, 3, R.thorough) for i in range(3)]
    count(R, par.pmap(job, jobs, 1))
    R.need("initialised objects", 250)
    R.need("uninitialised objects", 70)


def data(R):
    F = front("seg32")
    ms = ["seg16", "seg32", "huge", "unreal"]
    for m in ms:
        base(m)
    jobs = []
    for m in ms:
        n = 16 if m != "unreal" else 6
        jobs += [("init", m, i, n, R.thorough) for i in range(n)]
        if m == "unreal" and not R.thorough:
            jobs = [j for j in jobs if j[1] != "unreal" or j[2] == 0]
        jobs += [("auto", m, i, 2, R.thorough) for i in range(2)]
        if m in ("seg16", "seg32") or R.thorough:
            jobs += [("autos", m, i, 4, R.thorough) for i in range(4)]
        jobs += [("plain", m, i, 2, R.thorough) for i in range(2)] + [("pack", m, 0, 1, R.thorough)]
    count(R, par.pmap(job, jobs, 1))
    R.need("initialised objects", 900)
    R.need("uninitialised objects", 300)
    R.need("automatic scalars", 500)
    R.rule("Abstract interpretation of the declaration and initialiser parser over declarations with symbolic constants; the data directives it emits are read "
           "back as bytes, addresses and alignments and compared with C's object layout and brace-elision rules.")
