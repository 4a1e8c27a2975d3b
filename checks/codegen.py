"""Code generation of expressions: x86 memory models (cgx86.c)"""
import os, time
import build, cgx, cgxparts, par, emit
from sai import AnalysisError

MODELS = ("seg16", "seg32", "huge", "unreal")
MIN = {"C01": 20000, "C02": 9000, "C03": 10000, "C04": 1500}


def run_groups(r, groups, title):
    cg = cgx.CG(defs=["-DNO_ANNOTATIONS"])
    jobs = []
    for m in MODELS:
        cg.init(m)
        for g, n, rpn in cgxparts.parts(cg, m, r.thorough):
            if g in groups:
                jobs.append((m, g, n, rpn))

    def one(j):
        m, g, n, rpn = j
        cg.covered = set()
        return cgx.check_expr(cg, m, rpn), cg.covered

    cov = set()
    for (m, g, n, rpn), (pr, c) in zip(jobs, par.pmap(one, jobs)):
        cov |= c
        r.count("partitions")
        r.count("partitions_" + m)
        r.sample("%s: %s" % (m, n)) if r.cover["partitions"] % 997 == 1 else None
        for msg, lst, sites in pr:
            r.violation("%s:%s" % (m, n), "v0100/cgx86.c %s" % (sites[0] if sites else "GenExpr"),
                        "%s model, expression '%s': %s" % (m, n, msg), lst)
    r.cover["functions"] = sorted({f for f, b in cov})
    r.count("basic_blocks", len(cov))
    r.rule(title + " Method: abstract interpretation of cgx86.c's LLVM IR (constants x value numbers, trace partitioning) "
           "per memory model and operand-shape class gives the residual assembly template of every path; the template's "
           "meaning under an x86 transfer function must equal the meaning of the RPN expression for all operand values. "
           "sites: the emitting call chains of GenExpr; a violation names model, operand shape and emitting lines.")
    r.assume += ["x86 instruction semantics as transcribed in engine/x86.py",
                 "operand classes in cgxparts.py enumerate the leaf shapes exprval leaves on the RPN stack",
                 "-DNO_ANNOTATIONS drops only the comment lines from the output"]


def arith(r):
    run_groups(r, ("arith", "unary", "load"), "Value of arithmetic, bitwise, shift and unary expressions.")
    r.need("partitions", 11000)


def rel(r):
    run_groups(r, ("rel", "logic"), "Comparisons, conditional jumps on comparisons, && || and comma.")
    r.need("partitions", 12000)


def stores(r):
    run_groups(r, ("incdec", "assign"), "Value and memory effect of assignments, compound assignments, ++/--.")
    r.need("partitions", 6000)


def calls(r):
    run_groups(r, ("call",), "Call target, argument slots, stack balance and result use.")
    r.need("partitions", 550)
