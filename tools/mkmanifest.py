#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses that exist."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = {os.path.basename(h).split("_")[0] for h in glob.glob(V + "/harness/P*.cpp")}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = "runtime monitoring: reference-model oracle over seeded workloads, under ASan/UBSan/float-cast and libstdc++ assertions"
m = {"version": 1, "setup_cmd": "python3 tools/build.py --all",
     "hooks": {"guard": "OXSX_VERIF", "enable": "the checks compile /repo/src with -DOXSX_VERIF; no hook was needed, so the define guards nothing",
               "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "python3 check.py Pxx [--tier quick|thorough]; see DESIGN.md. Files that need ROOT are compiled against the stand-ins in shim/."}
for p in props:
    i = p["id"]
    if i not in have:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
        continue
    root = "OXV_NEEDS_ROOT" in open(glob.glob(V + "/harness/%s_*.cpp" % i)[0]).read()
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                        "thorough_cmd": "python3 check.py %s --tier thorough" % i, "technique": TECH, "level": "exploration",
                        "level_note": "Held on the executions driven, counted in the evidence; trusts the harness's plain-array model"
                        + (" and the ROOT stand-ins in shim/ (ROOT itself is not installed)." if root else ".")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
