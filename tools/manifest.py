"""Writes MANIFEST.json from the property checks in props/ and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V]
os.chdir(V)
import check
P = check.load(); L = [json.loads(x) for x in open("properties.jsonl") if x.strip()]
NA = json.load(open("tools/not_applicable.json")) if os.path.exists("tools/not_applicable.json") else []
ids = [d["id"] for d in L]; assert len(set(ids)) == len(ids)
for p in P: assert p in ids, p + " has a check but no line in properties.jsonl"
na = {x["property"] for x in NA}
for i in ids: assert (i in P) != (i in na), i + " is neither checked nor not_applicable (or both)"
M = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "HEC_VERIF", "enable": "not used: the checks observe the library through its API, the file image and linker-interposed system calls; no hook is compiled into /repo", "source_commits": []},
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                 "technique": P[i].technique, "level": P[i].level, "level_note": P[i].note} for i in ids if i in P],
     "not_applicable": NA,
     "notes": "TLA+ specifications in spec/, checked with TLC; every exploration is bound to the real library by replaying model behaviours and by validating recorded traces against the trace specifications. See DESIGN.md."}
json.dump(M, open("MANIFEST.json", "w"), indent=1); print(len(M["checks"]), "checks")
