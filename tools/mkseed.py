"""mkseed.py ID PROPERTY FILE  (reads JSON {edits:[[old,new]..], demo:str, needs:str, breaks:str} on stdin)
Writes seeded/ID/. Edits are made on a scratch copy of the file."""
import json, os, subprocess, sys, tempfile
sid, prop = sys.argv[1:3]
spec = {}
exec(sys.stdin.read(), spec)
d = f"/verif/seeded/{sid}"; os.makedirs(d, exist_ok=True)
out = ""
with tempfile.TemporaryDirectory() as t:
    for f, edits in spec["edits"].items():
        s = open(f"/repo/{f}").read(); n = s
        for a, b in edits:
            assert n.count(a) == 1, (n.count(a), a)
            n = n.replace(a, b)
        compile(n, f, "exec")
        for side, txt in (("a", s), ("b", n)):
            p = os.path.join(t, side, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(txt)
    out = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, capture_output=True, text=True).stdout
lines = []
for l in out.splitlines():
    if l.startswith("diff --git"):
        f = l.split()[2][2:]; l = f"diff --git a/{f} b/{f}"
    lines.append(l)
open(d + "/patch.diff", "w").write("\n".join(lines) + "\n")
open(d + "/demo.py", "w").write(spec["demo"].lstrip("\n"))
open(d + "/demo.sh", "w").write('#!/bin/bash\nPYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
