#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
from props import PROPS, NA

H = os.path.dirname(os.path.abspath(__file__))


def main():
    man = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
    with open(os.path.join(H, "properties.jsonl"), "w") as f:
        for p in PROPS:
            d = {k: p[k] for k in ("id", "title", "statement")}
            d["quantifier"] = {"over": p["over"], "text": p["quant"]}
            d["why_tests_cant"] = p["why"]
            d["anchors"] = {"files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}
            if p.get("state"):
                d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
            f.write(json.dumps(d) + "\n")
            if p["id"] in NA:
                man["not_applicable"].append({"property": p["id"], "reason": NA[p["id"]]})
            else:
                man["checks"].append({
                    "property": p["id"],
                    "quick_cmd": "python3 check.py %s quick" % p["id"],
                    "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                    "technique": p["tech"], "level": "other", "level_note": p["note"]})
    with open(os.path.join(H, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
