"""Regenerates MANIFEST.json from properties.jsonl and the registry of checks."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from lv import props

NA = {
    "C30": "quantifies over floating-point rounding errors of whole iterations; no static error analysis in reach bounds them for all inputs (the exact-arithmetic algebra is decided by C08-C13)",
    "C31": "termination of the QR/QL iterations depends on convergence of floating-point values; no ranking argument is visible in the source (loops have no iteration cap), and indeed NaN input does not terminate",
    "C32": "convergence of a randomised block iteration to the requested precision is an analytic statement about runtime values that no static argument in reach bounds",
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in props.PROPS:
        s = props.PROPS[p]
        checks.append({
            "property": p,
            "quick_cmd": f"python3 -m lv.check {p} --tier quick",
            "thorough_cmd": f"python3 -m lv.check {p} --tier thorough",
            "technique": s.technique, "level": s.level, "level_note": s.note,
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "no check yet in this revision: machinery under construction")})
json.dump({"version": 1, "setup_cmd": "cd driver && cargo +nightly build --offline", "checks": checks,
           "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
