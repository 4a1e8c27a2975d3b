"""Partitions (RPN shapes) analysed for the x86 generator."""
import terms as T

C1, C2 = T.sym("c1", 32), T.sym("c2", 32)
L1, L2, L3, L4 = (T.sym("ofs%d" % i, 32) for i in range(1, 5))


def sizes(model):
    return (1, -1, 2) if model == "seg16" else (1, -1, 2, -2, 4)


def leaves(cg, model, which):
    """value operand classes: list of (name, rpn, storage-size or None)"""
    t = cg.t
    W = 2 if model == "seg16" else 4
    c = (C1, C2)[which]
    id_ = cg.ident[("va", "vb")[which]]
    lo = (L1, L2)[which]
    pl = (L3, L4)[which]
    out = [
        ("const", [(t.tokNumInt, c)], None),
        ("global&", [(t.tokIdent, id_)], None),
        ("local&", [(t.tokLocalOfs, lo)], None),
        ("acc", [(t.tokLocalOfs, lo), (t.tokUnaryStar, W), (ord("~"), 0)], None),
    ]
    for s in sizes(model):
        out.append(("global.%d" % s, [(t.tokIdent, id_), (t.tokUnaryStar, s)], s))
        out.append(("local.%d" % s, [(t.tokLocalOfs, lo), (t.tokUnaryStar, s)], s))
        out.append(("*ptr.%d" % s, [(t.tokLocalOfs, pl), (t.tokUnaryStar, W), (t.tokUnaryStar, s)], s))
    return out


def lvals(cg, model, which):
    t = cg.t
    W = 2 if model == "seg16" else 4
    id_ = cg.ident[("va", "vb")[which]]
    lo = (L1, L2)[which]
    pl = (L3, L4)[which]
    for s in sizes(model):
        yield "global.%d" % s, [(t.tokIdent, id_)], s
        yield "local.%d" % s, [(t.tokLocalOfs, lo)], s
        yield "*ptr.%d" % s, [(t.tokLocalOfs, pl), (t.tokUnaryStar, W)], s


def opname(cg, tk):
    n = cg.BIN.get(tk) or (cg.ASG[tk] + ("=" if cg.ASG[tk] != "=" else "") if tk in cg.ASG else None)
    return n or cg.t.name.get(tk, chr(tk) if 32 < tk < 127 else str(tk))


def parts(cg, model, thorough=True):
    """yield (group, name, rpn)"""
    t = cg.t
    W = 2 if model == "seg16" else 4
    LL = leaves(cg, model, 0)
    RR = leaves(cg, model, 1)
    word = lambda s: s is None or s == W
    # loads / leaf values
    for n, r, s in LL:
        yield "load", "value of %s" % n, r
    # unary operators and casts
    for n, r, s in LL:
        un = [ord("~"), t.tokUnaryMinus, t.tok_Bool, t.tokSChar, t.tokUChar]
        if W == 4:
            un += [t.tokShort, t.tokUShort]
        for tk in un:
            yield "unary", "%s of %s" % (opname(cg, tk), n), r + [(tk, 0)]
    for n, r, s in lvals(cg, model, 0):
        for tk in (t.tokInc, t.tokDec, t.tokPostInc, t.tokPostDec):
            yield "incdec", "%s of %s" % (opname(cg, tk), n), r + [(tk, s)]
        for tk in (t.tokPostAdd, t.tokPostSub):
            yield "incdec", "%s of %s" % (opname(cg, tk), n), r + [(t.tokNumInt, C1), (tk, s)]
        # the result of an increment used further
        yield "incdec", "* of postinc %s" % n, r + [(t.tokPostInc, s), (t.tokUnaryStar, W)] if abs(s) == W else r + [(t.tokPostInc, s), (t.tokUnaryMinus, 0)]
    # binary operators
    for (ln, lr, ls), (rn, rr, rs) in ((a, b) for a in LL for b in RR):
        narrow = (not word(ls)) + (not word(rs))
        for tk in cg.BIN:
            rel = tk in cg.REL
            if narrow == 2 and not thorough:
                # sizes are handled independently on each side; one representative per side pair
                if tk not in (ord("-"), t.tokULess, ord("/"), t.tokRShift, ord("*")):
                    continue
            g = "rel" if rel else "arith"
            yield g, "%s %s %s" % (ln, opname(cg, tk), rn), lr + rr + [(tk, 0)]
            if rel and narrow < 2:
                for j in (t.tokIf, t.tokIfNot):
                    yield "rel", "%s (%s %s %s)" % ("if" if j == t.tokIf else "ifnot", ln, opname(cg, tk), rn), lr + rr + [(tk, 0), (j, 55)]
    # assignments
    for ln, lr, ls in lvals(cg, model, 0):
        for rn, rr, rs in RR:
            narrow = (not word(ls)) + (not word(rs))
            for tk in cg.ASG:
                if narrow == 2 and not thorough:
                    if tk not in (ord("="), t.tokAssignSub, t.tokAssignUDiv, t.tokAssignURSh, t.tokAssignMul):
                        continue
                yield "assign", "%s %s %s" % (ln, opname(cg, tk), rn), lr + rr + [(tk, ls)]
    # short circuit
    for n, r, s in LL:
        for n2, r2, s2 in RR:
            if not (word(s) and word(s2)):
                continue
            yield "logic", "%s && %s" % (n, n2), r + [(t.tokShortCirc, 7)] + r2 + [(t.tokLogAnd, 7)]
            yield "logic", "%s || %s" % (n, n2), r + [(t.tokShortCirc, -7)] + r2 + [(t.tokLogOr, 7)]
            yield "logic", "%s , %s" % (n, n2), r + [(t.tokVoid, 0)] + r2 + [(t.tokComma, 0)]
    # calls
    fn = [(t.tokIdent, cg.ident["fn1"])]
    fnp = [(t.tokLocalOfs, L4), (t.tokUnaryStar, W)]
    for cn, c in (("fn1", fn), ("(*fp)", fnp)):
        yield "call", "%s()" % cn, [(ord("("), 0)] + c + [(ord(")"), 0)]
        for n, r, s in LL:
            yield "call", "%s(%s)" % (cn, n), [(ord("("), W)] + r + [(ord(","), 0)] + c + [(ord(")"), W)]
            for n2, r2, s2 in RR:
                if not (word(s) and word(s2)):
                    continue
                yield "call", "%s(%s, %s)" % (cn, n2, n), [(ord("("), 2 * W)] + r + [(ord(","), 0)] + r2 + [(ord(","), 0)] + c + [(ord(")"), 2 * W)]
    # the value of a call as an operand
    for n, r, s in RR:
        if word(s):
            yield "call", "fn1() - %s" % n, [(ord("("), 0)] + fn + [(ord(")"), 0)] + r + [(ord("-"), 0)]
            # the order of the two operands is unspecified: only operands the call cannot change
            if s is None:
                yield "call", "%s - fn1()" % n, r + [(ord("("), 0)] + fn + [(ord(")"), 0)] + [(ord("-"), 0)]
    for ln, lr, ls in lvals(cg, model, 0):
        yield "call", "%s = fn1()" % ln, lr + [(ord("("), 0)] + fn + [(ord(")"), 0)] + [(ord("="), ls)]
