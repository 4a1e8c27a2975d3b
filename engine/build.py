"""Compile /repo's current sources to LLVM IR and load them for analysis."""
import os, re, subprocess, sys, tempfile, hashlib, atexit, shutil, json
from sai import Module, AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "v0100")
CLANG = "/usr/bin/clang-18"
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18"

_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="verif-")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def irdump():
    src = os.path.join(VERIF, "engine", "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "irdump-" + h)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        t = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++", "-O1", "-std=c++17", "-fno-rtti", "-I", LLVM + "/include", src, "-o", t,
                            "-L", LLVM + "/lib", "-lLLVM-18"], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("cannot build irdump: " + r.stderr[-2000:])
        os.rename(t, exe)
    return exe


BASE = ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-fno-builtin", "-D__NO_CTYPE", "-U_FORTIFY_SOURCE", "-emit-llvm", "-c"]

UNITS = {
    "smlrc": (["smlrc.c"], ["-DHOST_LINUX", '-DPATH_PREFIX="/usr/local"']),
    "smlrcm": (["smlrc.c"], ["-DHOST_LINUX", '-DPATH_PREFIX="/usr/local"', "-DMIPS"]),
    "smlrl": (["smlrl.c"], ["-DHOST_LINUX", '-DPATH_PREFIX="/usr/local"']),
    "smlrcc": (["smlrcc.c"], ["-DHOST_LINUX", '-DPATH_PREFIX="/usr/local"']),
    "n2f": (["n2f.c"], ["-DHOST_LINUX", '-DPATH_PREFIX="/usr/local"']),
    "smlrpp": (["ucpp/" + x + ".c" for x in "arith assert cpp eval lexer macro mem nhash".split()],
               ["-DSTAND_ALONE", "-DUCPP_CONFIG"]),
}

_mods = {}


def compile_bc(src, flags, out):
    r = subprocess.run([CLANG] + BASE + flags + [src, "-o", out], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("clang failed on %s: %s" % (src, r.stderr[-2000:]))


def load(unit, extra=(), passes="function(mem2reg)", libc=False):
    key = (unit, tuple(extra), passes, libc)
    if key in _mods:
        return _mods[key]
    files, flags = UNITS[unit]
    bcs = []
    d = tmpdir()
    tag = hashlib.md5(repr(key).encode()).hexdigest()[:8]
    for f in files:
        bc = os.path.join(d, tag + os.path.basename(f) + ".bc")
        compile_bc(os.path.join(SRC, f), list(flags) + list(extra), bc)
        bcs.append(bc)
    if libc:
        bc = os.path.join(d, tag + "cmodel.bc")
        compile_bc(os.path.join(VERIF, "engine", "cmodel.c"), [], bc)
        bcs.append(bc)
    if len(bcs) > 1:
        l = os.path.join(d, tag + ".link.bc")
        r = subprocess.run(["/usr/bin/llvm-link-18" if os.path.exists("/usr/bin/llvm-link-18") else LLVM + "/bin/llvm-link"]
                           + bcs + ["-o", l], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("llvm-link failed: " + r.stderr[-2000:])
    else:
        l = bcs[0]
    M = Module(json.loads(dump(l, passes)))
    M.unit = unit
    M.libc = libc
    M.defines = macros(os.path.join(SRC, files[0]), list(flags) + list(extra))
    _mods[key] = M
    return M


def dump(bc, passes="function(mem2reg)"):
    r = subprocess.run([irdump(), bc, passes], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("irdump failed: " + r.stderr[-2000:])
    return r.stdout


def macros(src, flags):
    r = subprocess.run([CLANG, "-E", "-dM", "-w"] + flags + [src], capture_output=True, text=True)
    d = {}
    for ln in r.stdout.splitlines():
        m = re.match(r"#define (\w+) (.*)$", ln)
        if m:
            d[m.group(1)] = m.group(2)
    return d


def const(M, name, _depth=0):
    """value of a macro or enumerator"""
    if name in M.enums:
        return M.enums[name]
    e = M.defines.get(name)
    if e is None:
        raise AnalysisError("constant %s is not defined (anchor vanished)" % name)
    return cexpr(M, e)


def cexpr(M, e, depth=0):
    if depth > 20:
        raise AnalysisError("macro recursion")
    e = e.strip()
    m = re.fullmatch(r"'(\\?.)'", e)
    if m:
        c = m.group(1)
        return ord(c) if len(c) == 1 else {"\\n": 10, "\\0": 0, "\\t": 9, "\\\\": 92, "\\'": 39}[c]

    def rep(mm):
        t = mm.group(0)
        if re.fullmatch(r"0[xX][0-9a-fA-F]+|\d+", t):
            return t
        m2 = re.fullmatch(r"(0[xX][0-9a-fA-F]+|\d+)[uUlL]+", t)
        if m2:
            return m2.group(1)
        if t in M.enums:
            return str(M.enums[t])
        if t in M.defines:
            return "(%d)" % cexpr(M, M.defines[t], depth + 1)
        raise AnalysisError("cannot evaluate %s" % t)
    e2 = re.sub(r"'(.)'", lambda m: str(ord(m.group(1))), e)
    e2 = re.sub(r"\w+", rep, e2)
    if not re.fullmatch(r"[-+*/%()<>&|^~ 0-9xXa-fA-F]*", e2):
        raise AnalysisError("cannot evaluate %s" % e)
    return int(eval(e2.replace("/", "//")))


class Toks:
    """tok* constants of smlrc"""

    def __init__(self, M):
        self.M = M
        self.by = {}
        for n in list(M.defines) + list(M.enums):
            if n.startswith("tok"):
                try:
                    self.by[n] = const(M, n)
                except AnalysisError:
                    pass
        if len(self.by) < 80:
            raise AnalysisError("token constants vanished")
        self.name = {}
        for n, v in self.by.items():
            self.name.setdefault(v, n)

    def __getattr__(self, n):
        try:
            return self.by[n]
        except KeyError:
            raise AnalysisError("token constant %s vanished" % n)
