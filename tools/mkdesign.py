"""writes DESIGN.md: the text in tools/design_*.md, and tables of what there is"""
import glob, json, os, sys
H = "/verif/tools/"
sys.path.insert(0, "/verif")
sys.setrecursionlimit(20000)
import check
out = [open(H + "design_head.md").read()]
note = {"NOTES": {}, "NA": {}}
exec(open(H + "notes.py").read(), note)
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    out.append(f"\n### {i} {p['title']}\n\nAnchored in {', '.join(p['anchors']['files'])}. Level: {note['NOTES'].get(i, ('not claimed',))[0]}.\n\n")
    if not os.path.exists(f"/verif/proofs/{i}.py"):
        continue
    for k, u in enumerate(check.unit_list(i)):
        b = f" (bounded: {u.bounded})" if u.bounded else ""
        out.append(f"* {u.name}{b}" + (f"; requires: {'; '.join(u.requires)}" if u.requires else "") + (f"; trusts: {'; '.join(u.trusts)}" if u.trusts else "") + "\n")
    doc = open(f"/verif/oracle/{i}.py").read()
    rule = [x for x in doc.splitlines() if x.startswith("RULE")]
    if rule:
        out.append(f"* at run time: {rule[0].split('=', 1)[1].strip().strip(chr(34))}\n")
out.append("\n" + open(H + "design_tail.md").read())
out.append("| change | property | caught by | needs |\n|---|---|---|---|\n")
caught = json.load(open(H + "caught.json")) if os.path.exists(H + "caught.json") else {}
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(d))
    s = os.path.basename(os.path.dirname(d))
    out.append(f"| {s} | {m['property']} | {caught.get(s, '?')} | {str(m['needs'])[:160]} |\n")
open("/verif/DESIGN.md", "w").write("".join(out))
