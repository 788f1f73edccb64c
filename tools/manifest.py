"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
T = "explicit-state exploration of a reference model over bounded input spaces, with every model trace replayed on the real parser"
N = "Exhaustive within the spaces listed in the evidence file. Trusts the reference model in mc/model (written from Vim's syntax rules), the enumerator and the conversion of the tree in mc/impl."
claims = {
    "C01": ("exhaustive enumeration of bounded input spaces on the real parser, with an outcome automaton and a completeness audit of each tree", "Exhaustive within the spaces listed in the evidence file; the audit uses reflection over the node types and needs no reference model."),
    "C02": (T, N), "C03": (T, N), "C04": (T, N),
}
exec(open(root + "/tools/claims.py").read()) if os.path.exists(root + "/tools/claims.py") else None
m = {
    "version": 1,
    "setup_cmd": "bash check.sh setup",
    "checks": [],
    "not_applicable": [],
    "notes": "All checks run through check.sh, which builds mc/cmd/mc against /repo's working tree. No hooks in /repo: everything is judged through the exported API (C14 adds yield points with a build overlay, C16 runs the .vim files, C17 the built command).",
}
for p in props:
    i = p["id"]
    if i in claims:
        t, n = claims[i][:2]
        m["checks"].append({"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "bash check.sh %s -thorough" % i if False else "bash check.sh -thorough " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": claims[i][2] if len(claims[i]) > 2 else "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check yet: in work"})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(root + "/MANIFEST.json", "a").write("\n")
