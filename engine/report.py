"""Result collection: VIOLATION / KNOWN-FINDING lines, replay and evidence files."""
import json, os, re, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")


def known(pid):
    """key -> text of the findings recorded for this property"""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", ln.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


_defs = {}


def place(where, files=("smlrc.c", "fp.c", "lb.c", "cgx86.c")):
    """Func:line < Func:line  ->  file:line (Func) < ..."""
    defs = _defs.get(tuple(files))
    if defs is None:
        defs = _defs[tuple(files)] = {}
        src = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "v0100")
        for fn in files:
            try:
                for m in re.finditer(r"^(?:[A-Za-z_][\w ]*[ *]+)(\w+)\s*\([^;{}]*\)\s*\{", open(os.path.join(src, fn), errors="replace").read(), re.M):
                    defs.setdefault(m.group(1), "v0100/" + fn)
            except OSError:
                pass
    w = where[6:] if re.match(r"v0100/\w+:\d+", where) else where
    return re.sub(r"\b([A-Za-z_]\w*):(\d+)", lambda m: "%s:%s (%s)" % (defs[m.group(1)], m.group(2), m.group(1)) if m.group(1) in defs else m.group(0), w)


class Report:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.viol = []        # (key, where, message, detail)
        self.cover = {}
        self.samples = []
        self.rules = []
        self.assume = []
        self.files = ("smlrc.c", "fp.c", "lb.c", "cgx86.c")
        self.thorough = tier == "thorough"

    def count(self, name, n=1):
        self.cover[name] = self.cover.get(name, 0) + n

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def rule(self, s):
        self.rules.append(s)

    def violation(self, key, where, msg, detail=""):
        key = re.sub(r"\s+", "_", key)
        self.viol.append((key, place(where, self.files), msg, detail))

    def need(self, name, minimum):
        """the instances confirmed by hand must still be there"""
        n = self.cover.get(name, 0)
        if n < minimum:
            from sai import AnalysisError
            raise AnalysisError("%s: only %d instances of '%s' found, at least %d were confirmed on the reference tree"
                                % (self.pid, n, name, minimum))

    def finish(self):
        kf = known(self.pid)
        fresh = [v for v in self.viol if v[0] not in kf]
        seen = set()
        for v in self.viol:
            if v[0] in kf and v[0] not in seen:
                seen.add(v[0])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, kf[v[0]]))
        cov = dict(self.cover)
        cov["explanation"] = " ".join(self.rules)
        cov["samples"] = self.samples
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": "other", "coverage": cov, "assumptions": self.assume,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not fresh:
            n = {k: v for k, v in self.cover.items() if isinstance(v, int)}
            print("%s %s: holds; analysed %s" % (self.pid, self.tier, ", ".join("%s %d" % x for x in sorted(n.items()))))
            return 0
        rp = os.path.join(EVID, "replay-%s.txt" % self.pid)
        with open(rp, "w") as f:
            f.write("property %s: %d violations\n\n" % (self.pid, len(fresh)))
            for k, w, m, d in fresh[:200]:
                f.write("[%s]\n  at   %s\n  what %s\n%s\n" % (k, w, m, "".join("  | %s\n" % x for x in d.splitlines())))
        for k, w, m, d in fresh[:8]:
            print("%s: %s: %s [%s]" % (self.pid, w, m, k))
        if len(fresh) > 8:
            print("... %d more in %s" % (len(fresh) - 8, rp))
        print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        return 1
