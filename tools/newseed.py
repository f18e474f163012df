#!/usr/bin/env python3
"""newseed.py ID PROPERTY NPROCS FILE <<< JSON {subs:[[old,new],...] , needs, breaks, demo}: creates seeded/ID from textual edits of one or more source files.
Reads a Python literal dict on stdin: dict(edits=[(file, old, new), ...], needs=..., breaks=..., demo=C source)"""
import sys, os, json, subprocess, shutil, ast
sid, prop, P = sys.argv[1:4]
d = eval(sys.stdin.read())
S = f"/verif/seeded/{sid}"; W = "/tmp/newseed.wt"
os.makedirs(S, exist_ok=True)
shutil.rmtree("/tmp/newseed.wt", ignore_errors=True)
for side in "ab": os.makedirs(f"{W}/{side}/src")
for f in {e[0] for e in d["edits"]}:
    for side in "ab": shutil.copy(f"/repo/src/{f}", f"{W}/{side}/src/{f}")
for f, old, new in d["edits"]:
    t = open(f"{W}/b/src/{f}").read()
    if t.count(old) != 1: sys.exit(f"edit of {f}: pattern occurs {t.count(old)} times: {old[:80]!r}")
    open(f"{W}/b/src/{f}", "w").write(t.replace(old, new))
r = subprocess.run(["diff", "-ru", "a", "b"], cwd=W, stdout=subprocess.PIPE, text=True)
open(f"{S}/patch.diff", "w").write("\n".join(l for l in r.stdout.split("\n") if not l.startswith("diff -ru")))
shutil.rmtree("/tmp/newseed.wt")
if "demo" in d: open(f"{S}/demo.c", "w").write(d["demo"].lstrip("\n"))
open(f"{S}/demo.sh", "w").write(open("/verif/tools/demo.tmpl").read().replace("@P@", P))
os.chmod(f"{S}/demo.sh", 0o755)
json.dump(dict(property=prop, needs=d["needs"], what_it_breaks=d["breaks"]), open(f"{S}/meta.json", "w"), indent=1)
print("wrote", S)
