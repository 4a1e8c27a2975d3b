CHECKS = {
    "C01": ("codegen", "arith"),
    "C02": ("codegen", "rel"),
    "C03": ("codegen", "stores"),
    "C04": ("codegen", "calls"),
    "F01": ("frontexpr", "fold"),
    "F02": ("frontexpr", "arith"),
    "F03": ("frontexpr", "ptr"),
    "F04": ("frontexpr", "assign"),
    "F05": ("frontexpr", "valid"),
    "F06": ("frontexpr", "prec"),
}
CHECKS["F07"] = ("stmtflow", "flow")
CHECKS["C05"] = ("frames", "frames")
CHECKS["L01"] = ("linker", "refs")
CHECKS["L02"] = ("linker", "image_")
CHECKS["L03"] = ("linker", "start")
CHECKS["L04"] = ("linker", "relocs")
CHECKS["L05"] = ("linker2", "symbols")
CHECKS["L06"] = ("linker2", "refused")
CHECKS["L07"] = ("linker2", "limits")
CHECKS["L08"] = ("linker2", "iofail")
CHECKS["D01"] = ("driver", "pipeline")
CHECKS["D02"] = ("driver", "failures")
CHECKS["D03"] = ("driver", "quoting")
CHECKS["D04"] = ("driver", "archives")
CHECKS["N01"] = ("n2f", "translate")
CHECKS["N02"] = ("n2f", "failures")
CHECKS["F08"] = ("datainit", "data")
CHECKS["S01"] = ("libstr", "strings")
CHECKS["S02"] = ("libnum", "numbers")
CHECKS["S03"] = ("libnum", "sorting")
CHECKS["S04"] = ("libfmt", "printing")
CHECKS["S05"] = ("libscan", "scanning")
CHECKS["S06"] = ("libheap", "s06")
CHECKS["S07"] = ("libio", "s07")
CHECKS["F10"] = ("lexer", "f10")
CHECKS["F11"] = ("lexer", "f11")
CHECKS["F09"] = ("scopes", "names")
CHECKS["F12"] = ("limits", "limits")
CHECKS["M01"] = ("mipsgen", "exprs")
CHECKS["M02"] = ("mipsgen", "functions")
CHECKS["M03"] = ("mipsgen", "flow")
CHECKS["M04"] = ("mipsgen", "data")
