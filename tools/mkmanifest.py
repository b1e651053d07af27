#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed when lean/Contracts/<id>.lean exists."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import importlib.util
spec = importlib.util.spec_from_file_location("levels", V + "/tools/levels.py")
L = importlib.util.module_from_spec(spec); spec.loader.exec_module(L)
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    pid = json.loads(l)["id"]
    f = V + "/lean/Contracts/%s.lean" % pid
    if pid in L.NOTE and os.path.exists(f):
        s = open(f).read()
        ns = re.search(r"^namespace\s+(\S+)", s, re.M).group(1)
        have = set(re.findall(r"^theorem\s+([^\s:({\[]+)", s, re.M))
        th = sorted(t for t in have if re.fullmatch(L.MAIN[pid], t))
        assert th, pid
        checks.append({"property": pid, "quick_cmd": "python3 check.py %s quick" % pid, "thorough_cmd": "python3 check.py %s thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": "contract-based deductive verification: contracts on the functions extracted from /repo on every run, obligations discharged by the Lean 4 kernel; failing inputs searched on the compiled crate",
                       "level": "proof", "level_note": L.NOTE[pid], "theorems": [ns + "." + t for t in th]})
    else:
        na.append({"property": pid, "reason": L.NA.get(pid, "contracts not built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the extractor reads the source as it is. fix: commits and known findings are listed in known-findings.txt."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
