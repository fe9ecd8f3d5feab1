"""mkbug.py ID PROPERTY FILE <<< JSON {old,new,needs,breaks,demo}: writes seeded/ID from a textual edit of /repo."""
import difflib, json, os, sys
bid, prop = sys.argv[1:3]
d = json.load(sys.stdin) if not os.path.exists(sys.argv[3]) else None
ns = {}
if d is None:
    exec(open(sys.argv[3]).read(), ns)
    d = ns
out = f"/verif/seeded/{bid}"
os.makedirs(out, exist_ok=True)
patch = ""
for rel, edits in d["edits"].items():
    src = open(f"/repo/{rel}").read()
    new = src
    for old, rep, *cnt in edits:
        assert new.count(old) == (cnt[0] if cnt else 1), (rel, old, new.count(old))
        new = new.replace(old, rep)
    patch += "".join(difflib.unified_diff(src.splitlines(True), new.splitlines(True), f"a/{rel}", f"b/{rel}"))
open(f"{out}/patch.diff", "w").write(patch)
open(f"{out}/meta.json", "w").write(json.dumps({"property": prop, "needs": d["needs"], "what_it_breaks": d["breaks"]}, indent=1) + "\n")
open(f"{out}/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
open(f"{out}/demo.py", "w").write(d["demo"].lstrip("\n"))
