import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/engine")
import props
na = {
 "C18": "Python code over pybind11 bindings: neither pybind11 nor the compiled extension is available here, and no deductive verifier for Python with numpy/scipy/networkx objects is installed; the behaviour behind the bindings is covered by C10-C17",
 "C19": "parsing and printing through Stim, whose sources are not available in this sandbox, so the command-line code cannot be compiled or extracted; no contract on the real code can be discharged",
}
checks = []
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
for p in ids:
    if p in na or p not in props.P:
        if p not in na:
            na[p] = "check under construction"
        continue
    q = props.P[p]
    lvl = q.get("level", "proof" if q["vc"] else "other")
    checks.append(dict(property=p, quick_cmd=f"python3-vt check.py {p}", thorough_cmd=f"env VERIF_TIER=thorough python3-vt check.py {p}",
        technique=q.get("technique", "contract-based deductive verification: C++ contracts on the real functions, verification conditions generated from clang's IR of /repo on every run, discharged by z3; bounded native stand-in for failing inputs"),
        level=lvl, level_note=q.get("note", q.get("explain", ""))))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3'", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(na.items())],
         notes="All commands run from /verif. known_findings.txt lists the defects repaired in /repo.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
