#!/usr/bin/env python3
"""mkseed.py ID PROP: take the diff of the scratch tree /tmp/seed/repo (git) and make seeded/ID from it; reads needs/what/demo from stdin as JSON"""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
id, prop = sys.argv[1:3]
o = json.load(sys.stdin)
d = os.path.join(ROOT, "seeded", id); os.makedirs(d, exist_ok=True)
src = o.get("edits")
tree = "/tmp/seed/repo"
shutil.rmtree("/tmp/seed", ignore_errors=True); os.makedirs("/tmp/seed")
subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
subprocess.check_call("mkdir -p %s && git -C /repo archive HEAD src | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base" % (tree, tree, tree), shell=True)
for f, a, b in src:
    p = os.path.join(tree, f); s = open(p).read()
    assert s.count(a) == 1, (f, s.count(a), a)
    open(p, "w").write(s.replace(a, b))
diff = subprocess.check_output(["git", "-C", tree, "diff"]).decode()
open(os.path.join(d, "patch.diff"), "w").write(diff)
json.dump({"property": prop, "needs": o["needs"], "what_it_breaks": o["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
if o.get("demo"):
    open(os.path.join(d, "demo.sh"), "w").write(o["demo"])
for f in ("lib.sh", "mkpg.py", "shim.c"):
    shutil.copy(os.path.join(ROOT, "tools", "demo", f), d)
shutil.rmtree("/tmp/seed", ignore_errors=True)
print(diff)
