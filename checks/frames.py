"""Function frames, interrupt functions and run-time helper routines emitted by smlrc."""
import sys, re
sys.setrecursionlimit(20000)
import terms as T
from terms import isc, mask, sgn
import fe, stmt, emit, par, low, fesem
from sai import AnalysisError
from x86 import Bad

SZ = {"char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "float": 4}
MODELS = ["seg32", "seg16", "huge", "unreal"]
STRUCTS = "struct S1 { char a[1]; }; struct S2 { char a[2]; }; struct S3 { char a[3]; }; struct S5 { char a[5]; }; struct SW { int a; char* p; char q[6]; }; union UU { int i; char c[7]; };"


def size(t, W):
    m = re.fullmatch(r"(.*?)\s*\[(\d+)\](?:\[(\d+)\])?", t)
    if m:
        return size(m.group(1), W) * int(m.group(2)) * int(m.group(3) or 1)
    if t.endswith("*") or t.endswith("(*)()"):
        return W
    if t in SZ:
        return SZ[t]
    if t.startswith("struct S") and t[8:].isdigit():
        return int(t[8:])
    if t == "struct SW":
        return W + W + (6 if W == 2 else 8)
    if t == "union UU":
        return 8
    return W


def declare(t, n):
    m = re.fullmatch(r"(.*?)\s*(\[\d+\].*)", t)
    if m:
        return "%s %s%s" % (m.group(1), n, m.group(2))
    if t.endswith("(*)()"):
        return "%s (*%s)()" % (t[:-5], n)
    return "%s %s" % (t, n)


def types(model):
    r = ["int", "char", "unsigned", "char*", "unsigned char", "signed char", "struct S1", "struct S3", "struct S2", "struct S5", "struct SW", "union UU", "int (*)()"]
    if model != "seg16":
        r += ["short", "float", "unsigned short"]
    return r


class Fn:
    """one function whose variables' addresses are passed to e()"""

    def __init__(self, params, body, ret="void", name="f"):
        self.params, self.body, self.ret, self.name = params, body, ret, name


def parsewalk(m, maxev=200):
    """[(callee, args, regs, stack depth info)] on the straight path (no branches)"""
    ev = []
    while True:
        e = m.advance(lambda c: None)
        if e[0] == "branch":
            raise Bad("unexpected branch")
        e = e[1]
        if e[0] == "call":
            args = [v for v, w in m.calls[-1][1]]
            fr = [i for i, (v, w) in enumerate(m.calls[-1][1]) if v is None]
            ev.append((e[1], m.calls[-1][1], fr))
            if len(ev) > maxev:
                raise AnalysisError("too many calls")
        else:
            ev.append((e[0], e[1] if len(e) > 1 else None, None))
            return ev


class Machine(stmt.FnX86):
    def clobber(self):
        self.atcall = dict(self.regs)
        self.callregs = getattr(self, "callregs", []) + [self.atcall]
        stmt.FnX86.clobber(self)

    def leave(self, w):
        self.preleave = self.regs["eax"]
        stmt.FnX86.leave(self, w)


def machine(model, holes, st, name):
    m = stmt.function_machine(model, holes, st, name)
    m.__class__ = Machine
    return m


def base_term(m):
    """address of the saved frame pointer slot, in the form &local takes"""
    if m.model == "seg16":
        return T.ext(32, m.bp, 0, 16) if not isc(m.bp) and m.bp.w == 32 else m.bp
    if m.model == "seg32":
        return m.bp
    return T.add(32, T.shl(32, T.zext(16, m.segs["ss"], 32), 4), m.bp)


def offset(m, v):
    b = base_term(m)
    w = 16 if m.model == "seg16" else 32
    v = T.trunc(v.w, v, w) if not isc(v) and v.w > w else v
    d = T.sub(w, v, b)
    return sgn(d, w) if isc(d) else None


def layouts(model):
    """(name, params, locals tree): locals tree = list of (type) or nested list"""
    ty = types(model)
    for t in ty:
        yield "param-%s" % t, [t], []
        yield "param2-%s" % t, ["char", t, "int"], []
        yield "param3-%s" % t, [t, t, "char"], ["int"]
        yield "local-%s" % t, [], [t]
        yield "local2-%s" % t, ["int"], ["char", t, "char", t, "int"]
        yield "arr-%s" % t, [], [t + ("[3]" if "(*)" not in t else ""), "char"] if "(*)" not in t else [t]
    yield "many", ["int", "char", "char*", "struct S3", "char", "struct SW", "int"], ["char", "struct S5", "int", "char[7]", "struct SW", "char", "int[2][3]"]
    yield "blocks", ["int"], ["int", ["char", "int"], ["char[9]", ["int", "char"]], "char"]
    yield "blocks2", [], [["int[10]"], ["char"], "int", [["char[3]", "int"], "char"], "struct S3"]
    yield "big", ["char"], ["char[1000]", "int", ["char[3000]"], "char"]


def body_of(tree, names, pre="v", depth=0):
    """C text declaring the locals and passing all visible addresses to e()"""
    out = []
    live = list(names)
    k = 0
    for x in tree:
        if isinstance(x, list):
            b, _ = body_of(x, live, "%s%d_" % (pre, k), depth + 1)
            out.append("{ %s }" % b)
        else:
            n = "%s%d" % (pre, k)
            out.append(declare(x, n) + ";")
            live.append((n, x))
        k += 1
        out += ["e(&%s);" % n if not isarr(t) else "e(%s);" % n for n, t in live]
    return " ".join(out), live


def isarr(t):
    return "[" in t


def plan(tree, names, pre="v"):
    """the sequence of (variable, type) that body_of passes to e(), with the live set"""
    seq = []
    live = list(names)
    k = 0
    for x in tree:
        if isinstance(x, list):
            seq += plan(x, live, "%s%d_" % (pre, k))
        else:
            live.append(("%s%d" % (pre, k), x))
        k += 1
        for n, t in live:
            seq.append((n, t, tuple(live)))
    return seq


def check_layout(f, base, model, name, params, tree, opts):
    W = 2 if model == "seg16" else 4
    ps = [("p%d" % i, t) for i, t in enumerate(params)]
    b, _ = body_of(tree + ([] if tree else ["int"]), ps)
    text = "void f(%s) { %s }" % (", ".join(declare(t, n) for n, t in ps) or "void", b)
    sts, h = f.resume(base.fork(), f.lex(text))
    if len(sts) != 1 or sts[0].status != "fin":
        return text, ["is rejected: %s" % sts[0].status], "v0100/smlrc.c"
    m = machine(model, h, sts[0], "_f")
    probs = []
    try:
        ev = parsewalk(m)
    except Bad as x:
        return text, [str(x)], m.locs[m.pc - 1]
    want = plan(tree + ([] if tree else ["int"]), ps)
    calls = [e for e in ev if e[0] == "_e"]
    if len(calls) != len(want) or ev[-1][0] != "ret":
        return text, ["%d calls emitted, %d written" % (len(calls), len(want))], m.locs[0]
    # parameters as the caller lays them out
    ofs = 2 * W          # saved frame pointer and return address
    expect = {}
    for n, t in ps:
        expect[n] = ofs
        ofs += (size(t, W) + W - 1) // W * W
    addr = {}
    for (n, t, live), (_, stack, fr) in zip(want, calls):
        v = stack[-1][0]
        o = offset(m, v)
        if o is None:
            probs.append("address of %s is %s" % (n, v))
            continue
        if addr.setdefault(n, o) != o:
            probs.append("%s moves from %d to %d" % (n, addr[n], o))
        if n in expect and o != expect[n]:
            probs.append("parameter %s is read at frame offset %d, the caller puts it at %d" % (n, o, expect[n]))
        if n not in expect:
            if o + size(t, W) > 0 or o < -m.framesize:
                probs.append("%s (%d bytes at %d) lies outside the frame of %d bytes" % (n, size(t, W), o, m.framesize))
            al = min(W, 1 if t.startswith("char") or t.endswith("char") or t[:8] in ("struct S", "unsigned") and t[8:].isdigit() else size(t.split("[")[0], W))
            if al in (2, 4) and o % al:
                probs.append("%s at frame offset %d is not aligned" % (n, o))
        # simultaneously live variables are disjoint
        for n2, t2 in live:
            if n2 == n or n2 not in addr:
                continue
            a, b2 = addr[n], addr[n2]
            if a < b2 + size(t2, W) and b2 < a + size(t, W):
                probs.append("%s at %d overlaps %s at %d" % (n, a, n2, b2))
        # nothing but the frame and the argument is on the stack: slots saved fp, frame, arg
        if len(stack) != (3 if m.framesize else 2):
            probs.append("stack of %d slots at the call of e(%s)" % (len(stack), n))
    if m.framesize % W:
        probs.append("frame of %d bytes misaligns the stack" % m.framesize)
    if sts[0].user.get("badpatch"):
        probs.append("frame size text: " + sts[0].user["badpatch"])
    probs += fxnsz(model, m)
    return text, sorted(set(probs)), m.locs[0]


def fxnsz(model, m, fn="_f"):
    """huge and unreal functions carry a size record end - start"""
    if model not in ("huge", "unreal"):
        return []
    recs = [(i, l) for i, l in enumerate(m.L) if re.match(r"dd\s+[\w.$@]+\s*-\s*%s$" % re.escape(fn), l)]
    if len(recs) != 1:
        return ["%d function size records for %s" % (len(recs), fn)]
    i, l = recs[0]
    sec = [x for x in m.L[:i] if x.startswith("section")][-1]
    if ".fxnsz" not in sec:
        return ["function size record in %s" % sec]
    end = re.match(r"dd\s+([\w.$@]+)", l).group(1)
    last = max(j for j, x in enumerate(m.L[:i]) if x in ("retf", "iret", "ret"))
    e = m.index.get(end)
    if e is None or e < last or m.index[fn] > e or any(not x.endswith(":") for x in m.L[last + 1:e]):
        return ["the size record of %s ends at %s, not after its last instruction" % (fn, end)]
    return []


def struct_ret(f, base, model):
    """functions returning and receiving structures: hidden result pointer, copy helper arguments"""
    W = 2 if model == "seg16" else 4
    for t in ("struct S1", "struct S3", "struct SW", "union UU"):
        for params in ([t], ["int", t], [t, "char", t]):
            ps = [("p%d" % i, x) for i, x in enumerate(params)]
            k = max(i for i, x in enumerate(params) if x == t)
            text = "%s f(%s) { e(&p%d); return p%d; }" % (t, ", ".join(declare(x, n) for n, x in ps), k, k)
            sts, h = f.resume(base.fork(), f.lex(text))
            if len(sts) != 1 or sts[0].status != "fin":
                yield text, ["is rejected: %s" % sts[0].status], "v0100/smlrc.c"
                continue
            m = machine(model, h, sts[0], "_f")
            probs = []
            try:
                ev = parsewalk(m)
                ofs = 3 * W
                for i, (n, x) in enumerate(ps):
                    if i == k:
                        break
                    ofs += (size(x, W) + W - 1) // W * W
                if [e[0] == "_e" for e in ev[:1]] != [True] or len(ev) != 3 or ev[-1][0] != "ret":
                    probs.append("calls %s" % [e[0] for e in ev])
                else:
                    if offset(m, ev[0][1][-1][0]) != ofs:
                        probs.append("structure parameter at %s, the caller puts it at %d (after the hidden result pointer)" % (offset(m, ev[0][1][-1][0]), ofs))
                    a = [v for v, w in ev[1][1]][-3:]
                    sz = a[2] if False else None
                    w = 16 if W == 2 else 32
                    # pushed: destination, source, size
                    want_sz = size(t, W)
                    if not isc(a[2]) or a[2] != want_sz:
                        probs.append("copy of %s bytes, the structure has %d" % (a[2], want_sz))
                    if offset(m, a[1]) != ofs:
                        probs.append("copy source is frame offset %s, not %d" % (offset(m, a[1]), ofs))
                    m.regs["ebp"] = m.callregs[0]["ebp"]
                    lin = m.linear(*m.addr("bp+%d" % (2 * W) if model != "seg32" else "ebp+8"))
                    hid = m.memload(lin, W)
                    if a[0] is not hid and T.trunc(32, a[0], w) is not hid:
                        probs.append("copy destination is %s, not the hidden result pointer %s" % (a[0], hid))
            except Bad as x:
                probs.append(str(x))
            yield text, probs, m.locs[min(m.pc, len(m.locs)) - 1]


def main_ret(f, base, model):
    c = stmt
    cases = [("int main(void) { s(); }", ("block", [("expr", ("call", "s"))])),
             ("int main(void) { if (a()) return b(); s(); }", ("block", [("if", ("call", "a"), ("return", ("call", "b")), None), ("expr", ("call", "s"))])),
             ("int main(void) { while (a()) { if (b()) return 5; } }", ("block", [("while", ("call", "a"), ("if", ("call", "b"), ("return", ("num", 5)), None))])),
             ("int main(void) { { return a(); } }", ("block", [("return", ("call", "a"))])),
             ("int main(void) { return a(); }", ("block", [("return", ("call", "a"))]))]
    for text, s in cases:
        name = "_main"
        sts, h = f.resume(base.fork(), f.lex(text))
        if len(sts) != 1 or sts[0].status != "fin":
            yield text, ["is rejected: %s" % sts[0].status], "v0100/smlrc.c"
            continue
        labels = [l for l, _ in stmt.lines(sts[0]) if re.fullmatch(r"_*main:", l)]
        if len(labels) != 1:
            yield text, ["main is not emitted"], "v0100/smlrc.c"
            continue
        m = stmt.function_machine(model, h, sts[0], labels[0][:-1])
        r = stmt.Ref(m.W)
        e = r.build(("block", [s, ("return", ("num", 0))]))
        msg, m2, n = stmt.compare(m, r, e, False)
        yield text, [msg] if msg else [], m.locs[max(0, m2.pc - 1)]


def chkstk_use(f, base):
    """-winstack: frames of a page or more are probed before they are allocated"""
    for n in (4, 4092, 4096, 4100, 40000):
        text = "void f(void) { char v[%d]; e(v); }" % n
        sts, h = f.resume(base.fork(), f.lex(text))
        if len(sts) != 1 or sts[0].status != "fin":
            yield text, ["is rejected: %s" % sts[0].status], "v0100/smlrc.c"
            continue
        m = machine("seg32", h, sts[0], "_f")
        probs = []
        ev = parsewalk(m)
        pr = [e for e in ev if e[0] not in ("_e", "ret")]
        fs = m.framesize
        if fs < n:
            probs.append("frame of %d bytes for an array of %d" % (fs, n))
        if fs >= 4096:
            lab = pr[0][0] if pr else None
            if len(pr) != 1 or ev[0] is not pr[0]:
                probs.append("the frame of %d bytes is not probed before use" % fs)
            else:
                if m.callregs[0]["eax"] != fs:
                    probs.append("%s bytes are probed, %d are allocated" % (m.callregs[0]["eax"], fs))
                if len(ev[0][1]) != 1:
                    probs.append("the stack is probed after it was lowered")
                wl = sts[0].gget("WinChkStkLabel")
                if "L%d" % sgn(wl, 32) != lab.strip("_"):
                    probs.append("probe calls %s, the routine is labelled L%d" % (lab, sgn(wl, 32)))
        elif pr:
            probs.append("frame of %d bytes calls %s" % (fs, pr[0][0]))
        yield text, probs, m.locs[0]


def limits(f, bases):
    for model, text, ok in (
            ("seg16", "void f(void) { char v[32000]; e(v); }", True), ("seg16", "void f(void) { char v[33000]; e(v); }", False),
            ("huge", "void f(void) { char v[32000]; e(v); }", True), ("huge", "void f(void) { char v[40000]; e(v); }", False),
            ("unreal", "void f(void) { char v[40000]; e(v); }", False), ("seg32", "void f(void) { char v[400000]; e(v); }", True),
            ("huge", "void f(void) { char v[20000]; { char w[20000]; e(w); } e(v); }", False),
            ("huge", "void f(void) { { char w[20000]; e(w); } { char v[20000]; e(v); } }", True),
            ("seg16", "struct B { char c[33000]; }; void f(struct B b) { e(&b); }", False),
            ("huge", "struct B { char c[20000]; }; void f(struct B b, struct B c) { e(&b); }", False)):
        sts, h = f.resume(bases[model].fork(), f.lex(text))
        got = all(x.status == "fin" for x in sts)
        yield model, text, [] if got == ok else ["is %s, but the stack frame %s" % ("accepted" if got else "rejected", "fits" if ok else "cannot be addressed")]


# ---------------------------------------------------------------- helper routines
def routine(text, label, bits, flat):
    L, index = low.clean(text)
    if label not in index:
        raise AnalysisError("routine %s is not emitted" % label)
    m = low.Low(bits, flat, L, index)
    m.pc = index[label]
    return m


def structcpy(model, text, label):
    bits = 32 if model == "seg32" else 16
    W = 2 if model == "seg16" else 4
    flat = "near" if model in ("seg32", "seg16") else "seg"
    far = model in ("huge", "unreal")
    wbits = 8 * W
    sizes = [1, 2, 3, 4, 7, 255, 256, 4096, 32766, 32767, 32768, 32769]
    if W == 4:
        sizes += [65535, 65536, 65537, 98303, 98304, 131071, 500000]
    for n in sizes:
        m = routine(text, label, bits, flat)
        if model == "unreal":
            m.segs["ds"] = m.segs["es"] = 0
        dst, src = T.sym("dst", wbits), T.sym("src", wbits)
        if far:
            # physical addresses below 1 MB
            dst, src = T.zext(20, T.sym("dst", 20), 32), T.zext(20, T.sym("src", 20), 32)
        ra = [(T.sym("ra%d" % i, 8)) for i in range(4 if far or bits == 32 else 2)]
        o = len(ra)
        for i, b in enumerate(ra):
            m.stk[i] = b
        for v in (n, src, dst):
            for i in range(W):
                m.stk[o + i] = T.ext(wbits, v, 8 * i, 8) if not isc(v) else v >> (8 * i) & 255
            o += W
        m.df = T.sym("df", 1)
        probs = []
        try:
            r = m.run()
            pos = 0
            for e in m.events:
                if e[0] == "store" or e[0] == "fill":
                    probs.append("writes memory besides copying")
                if e[0] != "copy":
                    continue
                if e[4] != 0:
                    probs.append("copies with the direction flag unknown or set")
                if e[1][0] != "lin" or e[2][0] != "lin":
                    probs.append("copies stack memory")
                    continue
                w = 32 if far or W == 4 else 16
                d = T.sub(w, e[1][1], T.trunc(32, dst, w) if not isc(dst) and dst.w > w else dst)
                s = T.sub(w, e[2][1], T.trunc(32, src, w) if not isc(src) and src.w > w else src)
                if d != pos & mask(w) or s != pos & mask(w):
                    probs.append("bytes %d.. are copied from source+%s to destination+%s" % (pos, s, d))
                if not isc(e[3]):
                    probs.append("copies %s bytes" % (e[3],))
                    break
                if far and e[3] and model == "huge":
                    # the chunk must not wrap the 64 KB segment: offset + count <= 65536 with offset <= 15
                    if e[3] > 65536 - 15:
                        probs.append("a chunk of %d bytes wraps the segment" % e[3])
                pos += e[3]
            if pos != n:
                probs.append("%d bytes of %d are copied" % (pos, n))
            res = T.trunc(32, m.regs["eax"], wbits)
            if res is not dst:
                probs.append("returns %s instead of the destination" % (res,))
            probs += exitstate(m, model, ra, 0)
        except Bad as x:
            probs.append(str(x))
        yield n, sorted(set(probs))


def exitstate(m, model, ra, removed):
    p = []
    far = model in ("huge", "unreal")
    kind = m.done[0] if m.done else None
    if kind != ("retf" if far else "ret"):
        p.append("ends with %s" % kind)
    else:
        want = T.cat([(x, 8) for x in reversed(ra)])
        got = T.cat([(m.done[2], 16), (m.done[1], 16)]) if far else m.done[1]
        if got is not want:
            p.append("returns to %s" % (got,))
    if m.regs["ebp"] is not T.sym("ebp0", 32):
        p.append("frame pointer is not restored")
    d = m.spdelta()
    if not isc(d) or (d - len(ra) - removed) & mask(m.bits):
        p.append("stack pointer ends %s from its value at entry, expected %d" % (d, len(ra) + removed))
    if m.segs["ss"] is not (T.sym("ss0", 16) if m.flat == "seg" else T.sym("ds0", 16)):
        p.append("stack segment changed")
    if model == "unreal" and (m.segs["ds"] != 0 or m.segs["es"] != 0):
        p.append("data segment registers are not zero on return")
    if m.flat == "near" and (m.segs["ds"] is not T.sym("ds0", 16) or m.segs["es"] is not T.sym("ds0", 16)):
        p.append("data segment registers changed")
    if m.df != 0:
        p.append("direction flag left set")
    return p


def structpush(model, text, label):
    bits = 32 if model == "seg32" else 16
    W = 2 if model == "seg16" else 4
    flat = "near" if model in ("seg32", "seg16") else "seg"
    far = model in ("huge", "unreal")
    wb = 8 * W
    sw = bits
    for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 1023, 4097, 30001):
        m = routine(text, label, bits, flat)
        if model == "unreal":
            m.segs["ds"] = m.segs["es"] = 0
        src = T.zext(20, T.sym("src", 20), 32) if far else T.sym("src", wb)
        ra = [T.sym("ra%d" % i, 8) for i in range(4 if far or bits == 32 else 2)]
        o = len(ra)
        for i, b in enumerate(ra):
            m.stk[i] = b
        for v in (src, n):
            for i in range(W):
                m.stk[o + i] = T.ext(wb, v, 8 * i, 8) if not isc(v) else v >> (8 * i) & 255
            o += W
        probs = []
        R = (n + W - 1) // W * W
        d = o - R                # where the structure must start
        try:
            r = m.run()
            cp = [e for e in m.events if e[0] == "copy"]
            if len(cp) != 1:
                probs.append("%d copies" % len(cp))
            else:
                e = cp[0]
                if e[1] != ("stk", d):
                    probs.append("the structure is copied to stack offset %s, expected %d" % (e[1][1], d))
                if e[3] != n:
                    probs.append("%s bytes of %d are copied" % (e[3], n))
                if e[2][0] != "lin" or T.sub(e[2][1].w if not isc(e[2][1]) else 32, e[2][1], T.trunc(32, src, e[2][1].w) if not isc(src) and src.w > e[2][1].w else src) != 0:
                    probs.append("the source is %s" % (e[2][1],))
                if m.flat == "near" and e[5]["es"] is not e[5]["ss"]:
                    probs.append("copied to another segment")
            # the caller drops two words and pushes eax: the dropped second word is the first one of the structure
            res = T.trunc(32, m.regs["eax"], wb)
            first = T.cat([(m.stk[d + i], 8) for i in reversed(range(W))]) if all(d + i in m.stk for i in range(W)) else None
            if first is None or res is not first:
                probs.append("returns %s instead of the first word of the copy" % (res,))
            if any(k >= d and k < d + R and not (not isc(v) and v.op == "fn" and v.args[0] == "stk" and v.args[1] == k & mask(32)) for k, v in m.stk.items() if k < len(ra) + 2 * W and k >= d and False):
                probs.append("the copy is overwritten")
            probs += exitstate(m, model, ra, d - W - len(ra))
        except Bad as x:
            probs.append(str(x))
        yield n, sorted(set(probs))


def chkstk(text, label):
    for esp in (0x12F7F8, 0x12F000, 0x12FFFC, 0x130004, 0x12FFF8):
        for n in (4096, 4100, 4104, 8192, 12284, 40000, 65536, 1000000):
            m = routine(text, label, 32, "near")
            m.regs["esp"] = m.sp0 = esp
            m.regs["eax"] = n
            for i in range(4):
                m.stk[i] = T.sym("ra%d" % i, 8)
            probs = []
            try:
                # loads are page probes
                m.spoff = lambda off, w, seg: (sgn(T.sub(32, off, esp), 32) if isc(off) and abs(sgn(T.sub(32, off, esp), 32)) < 4 else None)
                r = m.run(limit=20000)
                pages = [e[1] >> 12 for e in m.events if e[0] == "load"]
                top, low_ = (esp + 4) >> 12, (esp + 4 - n) >> 12
                if pages != list(range(top - 1, low_ - 1, -1)):
                    probs.append("probes pages %s" % (["%x" % x for x in pages[:4]],))
                if m.regs["esp"] != esp + 4:
                    probs.append("stack pointer changed")
                if m.regs["ebp"] is not T.sym("ebp0", 32):
                    probs.append("frame pointer changed")
                if [e for e in m.events if e[0] not in ("load",)]:
                    probs.append("does more than reading")
            except Bad as x:
                probs.append(str(x))
            yield "%x-%d" % (esp, n), probs


INTREGS = ["gs", "fs", "es", "ds"], ["edi", "esi", "ebp", "esp", "ebx", "edx", "ecx", "eax"]


class IsrMachine(low.Low):
    """call of the body: registers and segments are clobbered, the stack above the call is kept"""
    redirect = False
    seen = None

    def step(self):
        if self.pc < len(self.L) and self.L[self.pc] == "db\t0x9A" or self.L[self.pc:self.pc + 1] and re.fullmatch(r"db\s+0x9A", self.L[self.pc]):
            while not self.L[self.pc].startswith("dd") or not self.L[self.pc].split()[1].startswith("_c"):
                self.pc += 1
            self.pc += 1
            self.body()
            return None
        return low.Low.step(self)

    def body(self):
        self.seen = (self.spdelta(), dict(self.stk), self.regs["ebp"], dict(self.segs))
        for r in ("eax", "ebx", "ecx", "edx", "esi", "edi"):
            self.regs[r] = T.sym("c." + r, 32)
        if self.model == "huge":
            for s in ("ds", "es"):
                self.segs[s] = T.sym("c." + s, 16)
        for k, v in self.patch.items():
            for i, b in enumerate(v):
                self.stk[k + i] = b


def isr(f, base, model):
    """one interrupt function: saved context layout, parameter, restoration"""
    for what in ("plain", "modified", "redirected"):
        sts, h = f.resume(base.fork(), f.lex("void __interrupt isr(struct IR** pp) { c(); }"))
        if len(sts) != 1 or sts[0].status != "fin":
            yield what, ["is rejected: %s" % sts[0].status]
            continue
        text = "".join(sts[0].out)
        text = re.sub(r"section .relot\n\s*dd\s+\w+\n", "", text)
        L, index = low.clean(text)
        m = IsrMachine(16, "seg", L, index)
        m.model = model
        m.patch = {}
        m.pc = index["_isr"]
        for i, n in enumerate(("ip", "cs", "fl")):
            for b in range(2):
                m.stk[2 * i + b] = T.ext(16, T.sym(n, 16), 8 * b, 8)
        probs = []
        base0 = m.stklin()
        # expected context below the CPU's frame: ss, then eax..edi, then ds..gs
        ctx = -2 - 32 - 8
        fields = {}
        o = ctx
        for n in INTREGS[0]:
            fields[n] = (o, 2)
            o += 2
        for n in INTREGS[1]:
            fields[n] = (o, 4)
            o += 4
        fields["ss"] = (o, 2)
        segs0, regs0 = dict(m.segs), dict(m.regs)
        if what == "modified":
            for n in ("eax", "ebx", "ecx", "edx", "esi", "edi", "ebp", "ds", "es", "fs", "gs"):
                k, w = fields[n]
                m.patch[k] = [T.sym("new.%s.%d" % (n, i), 8) for i in range(w)]
        try:
            P = T.zext(20, T.sym("P", 20), 32)
            if what == "redirected":
                # the pointer the parameter points to is replaced: found from the layout below
                m.patch[ctx - 4] = [T.ext(32, P, 8 * i, 8) for i in range(4)]
                r = m.run(stop=[i for i, l in enumerate(L) if re.match(r"mov\s+sp\s*,", l)])
            else:
                r = m.run()
            if not m.seen:
                probs.append("the body is not reached")
                raise Bad("no body")
            spd, stk, ebp, segs = m.seen
            g = lambda k, n: T.cat([(stk.get(k + i, T.sym("?%d" % (k + i), 8)), 8) for i in reversed(range(n))])
            for n, (k, w) in fields.items():
                if n == "esp":
                    continue        # checked through restoration: value of sp before pushad
                want = segs0[n] if n in segs0 else regs0[n]
                if g(k, w) is not want:
                    probs.append("saved register field %s holds %s" % (n, g(k, w)))
            kesp = T.ext(32, g(fields["esp"][0], 4), 0, 16)
            if T.sub(16, kesp, m.sp0) != (-2) & 0xFFFF:
                probs.append("saved esp is %s" % (kesp,))
            # the parameter: frame offset 8 holds the address of a pointer to the context
            b16 = T.sub(16, T.ext(32, ebp, 0, 16), m.sp0)
            if not isc(b16):
                probs.append("frame pointer %s" % (ebp,))
            else:
                kb = sgn(b16, 16)
                if T.ext(32, ebp, 16, 16) != 0:
                    probs.append("the upper half of ebp is not cleared")
                if spd != kb & 0xFFFF:
                    probs.append("stack pointer differs from the frame pointer at the body")
                pp = m.split_sp(g(kb + 8, 4))
                d = T.sub(32, pp, base0)
                if not isc(d):
                    probs.append("the parameter is %s" % (pp,))
                else:
                    d = sgn(d, 32)
                    p = T.sub(32, m.split_sp(g(d, 4)), base0)
                    if not isc(p) or sgn(p, 32) != ctx:
                        probs.append("the parameter points to a pointer to stack offset %s, the context is at %d" % (p if not isc(p) else sgn(p, 32), ctx))
                    if d != ctx - 4:
                        raise AnalysisError("pointer cell at %d" % d)
            if model == "unreal" and (segs["ds"] != 0 or segs["es"] != 0):
                probs.append("the body does not run with zero data segments")
            if what == "redirected":
                if m.segs["ss"] is not T.fn("ld2", 16, T.add(32, P, 40), 0) and not isld(m, m.segs["ss"], P, 40):
                    probs.append("ss is loaded from %s" % (m.segs["ss"],))
                mm = m.fork()
                mm.step()
                sp = T.trunc(32, mm.regs["esp"], 16)
                x = T.add(16, sp, 40)
                if not isld(m, x, P, 20):
                    probs.append("the stack pointer becomes %s" % (sp,))
            else:
                if not m.done or m.done[0] != "iret":
                    probs.append("ends with %s" % (m.done,))
                else:
                    for v, n in zip(m.done[1:], ("ip", "cs", "fl")):
                        if v is not T.sym(n, 16):
                            probs.append("iret pops %s as %s" % (v, n))
                    if m.spdelta() != 6:
                        probs.append("stack pointer is off by %s" % (m.spdelta(),))
                for n in ("eax", "ebx", "ecx", "edx", "esi", "edi", "ebp"):
                    want = regs0[n] if what == "plain" else T.cat([(x, 8) for x in reversed(m.patch[fields[n][0]])])
                    if m.regs[n] is not want:
                        probs.append("%s is restored to %s" % (n, m.regs[n]))
                for n in ("ds", "es", "fs", "gs"):
                    want = segs0[n] if what == "plain" else T.cat([(x, 8) for x in reversed(m.patch[fields[n][0]])])
                    if m.segs[n] is not want:
                        probs.append("%s is restored to %s" % (n, m.segs[n]))
                if m.segs["ss"] is not segs0["ss"]:
                    probs.append("ss is restored to %s" % (m.segs["ss"],))
        except Bad as x:
            probs.append("%s at: %s" % (x, m.line))
        yield what, sorted(set(probs))


def isld(m, v, P, k):
    """v is a 2-byte load from P+k"""
    return not isc(v) and v.op == "fn" and v.args[0] == "ld2" and T.sub(32, m.real20(v.args[1]), T.add(32, P, k)) == 0


def frames(r):
    f = fe.FE()
    fd = lambda m: "float" if m != "seg16" else ""
    dec = "int a(void); int b(void); void c(void); void s(void); void e(void*); struct IR { int a; }; " + STRUCTS + " @here"
    bases = {m: f.base(["-" + m], dec) for m in MODELS}
    win = f.base(["-seg32", "-winstack"], dec)
    jobs = []
    for m in MODELS:
        for n, ps, tree in layouts(m):
            if m == "unreal" and not r.thorough and not n.startswith(("many", "blocks", "param-", "local2")):
                continue
            jobs.append((m, n, ps, tree, False))
    for n, ps, tree in layouts("seg32"):
        if n in ("many", "blocks", "big") or r.thorough:
            jobs.append(("seg32", n, ps, tree, True))

    def one(j):
        m, n, ps, tree, w = j
        f.covered = set()
        try:
            t, p, loc = check_layout(f, win if w else bases[m], m, n, ps, tree, w)
        except AnalysisError as x:
            raise AnalysisError("%s %s: %s" % (m, n, x))
        return t, p, loc, f.covered
    cov = set()
    for (m, n, ps, tree, w), (text, probs, loc, c) in zip(jobs, par.pmap(one, jobs)):
        cov |= c
        r.count("frame_layouts_%s" % m)
        r.count("frame_layouts")
        if r.cover["frame_layouts"] % 37 == 1:
            r.sample("%s: %s" % (m, text[:160]))
        for p in probs:
            r.violation("%s%s:%s:%s" % (m, "-win" if w else "", n, p[:60]), "v0100/%s" % loc, "%s: %s" % (text, p))
    for m in MODELS:
        for text, probs, loc in struct_ret(f, bases[m], m):
            r.count("structure_functions")
            for p in probs:
                r.violation("%s:%s" % (m, text), "v0100/%s" % loc, "%s: %s" % (text, p))
        for text, probs, loc in main_ret(f, bases[m], m):
            r.count("main_functions")
            for p in probs:
                r.violation("%s:%s" % (m, text), "v0100/%s" % loc, "%s: %s" % (text, p))
        st = bases[m].fork()
        for g, l in (("StructCpyLabel", 900), ("StructPushLabel", 901), ("WinChkStkLabel", 902)):
            st.gset(g, l)
        sts, h = f.run(st, "GenFin", [])
        if len(sts) != 1:
            raise AnalysisError("GenFin: %d paths" % len(sts))
        text = "".join(sts[0].out)
        loc = "v0100/GenFin:%d" % 0
        for nm, gen in (("structure copy helper", structcpy(m, text, "L900")), ("structure push helper", structpush(m, text, "L901"))):
            for k, probs in gen:
                r.count("helper_runs")
                for p in probs:
                    r.violation("%s:%s:%s:%s" % (m, nm.split()[1], k, p[:50]), "v0100/cgx86.c GenFin", "%s, %s model, %s bytes: %s" % (nm, m, k, p))
        if m == "seg32":
            for k, probs in chkstk(text, "L902"):
                r.count("helper_runs")
                for p in probs:
                    r.violation("chkstk:%s" % k, "v0100/cgx86.c GenFin", "stack probe routine, esp-size %s: %s" % (k, p))
        if m in ("huge", "unreal"):
            for what, probs in isr(f, bases[m], m):
                r.count("interrupt_functions")
                for p in probs:
                    r.violation("%s:isr:%s:%s" % (m, what, p[:50]), "v0100/cgx86.c GenIsrProlog/GenIsrEpilog", "%s model, interrupt function (%s): %s" % (m, what, p))
        cov |= f.covered
    for text, probs, loc in chkstk_use(f, win):
        r.count("stack_probes")
        for p in probs:
            r.violation("winstack:%s" % text, "v0100/%s" % loc, "%s: %s" % (text, p))
    for m, text, probs in limits(f, bases):
        r.count("frame_limits")
        for p in probs:
            r.violation("limit:%s:%s" % (m, text), "v0100/cgx86.c GenMaxLocalsSize", "%s model: %s %s" % (m, text, p))
    cov |= f.covered
    r.cover["functions"] = sorted({x for x, b in cov})
    r.rule("Frames. The definitions of functions with every parameter and local variable type, nested blocks, structure parameters and results are analysed through the "
           "compiler's IR by abstract interpretation into assembly text; the abstract values passed to an opaque callee show where each variable lives. Parameters must be where the "
           "caller (C04) puts them, simultaneously live locals disjoint, aligned and inside the allocated frame, the stack balanced on return. Interrupt entry/exit sequences and the "
           "structure copy/push and stack probe routines of GenFin() are analysed instruction by instruction over symbolic registers, addresses and stack contents.")
    r.assume += ["engine/low.py and engine/x86.py state the meaning of the instructions used", "the stack does not wrap around its segment; physical addresses are below 1 MB in the huge model",
                 "helper routines are analysed for the listed sizes (both sides of 32768, 65536) with symbolic addresses"]
    r.need("frame_layouts", 250)
    r.need("helper_runs", 100)
    r.need("interrupt_functions", 6)
    r.need("structure_functions", 40)
