"""the table of DESIGN.md, from props and seeded/*/meta.json and evidence"""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V]; os.chdir(V)
import check
C = json.load(open("tools/caught.json")); P = check.load(); out = []
for i in [json.loads(x)["id"] for x in open("properties.jsonl") if x.strip()]:
    if i not in P: continue
    q = "; ".join(s.name + (" (model)" if s.model else "") for s in P[i].sources)
    w = ""
    if os.path.exists("evidence/%s.json" % i): d = json.load(open("evidence/%s.json" % i)); w = ", %d histories, %d s" % (d["coverage"]["traces_validated_against_impl"], d["wall_s"])
    out.append("| %s %s | %s%s | same sources, 10-20 times the histories, all model transitions | %s |" % (i, P[i].title, q, w, ", ".join(s for s, c in sorted(C.items()) if i in c)))
s = open("DESIGN.md").read()
if "@@TABLE@@" in s: s = s.replace("@@TABLE@@", "\n".join(out))
else:
    a = s.index("| property | quick"); b = s.index("\n\n", a); s = s[:a] + "\n".join(s[a:b].split("\n")[:2] + out) + s[b:]
open("DESIGN.md", "w").write(s)
