#!/usr/bin/env python3
"""mkpatch.py ID PROPERTY CFGS FILE  <spec on stdin: python dict(old,new,needs,breaks,demo)>"""
import sys, subprocess, json, os
ID, prop, cfgs = sys.argv[1:4]
spec = {}; exec(sys.stdin.read(), spec)
S = "/verif/seeded/" + ID; os.makedirs(S, exist_ok=True)
assert subprocess.run(["git", "-C", "/repo", "diff", "--quiet"]).returncode == 0
for f, old, new, *n in spec["edits"]:
    p = "/repo/src/" + f; s = open(p).read(); assert s.count(old) == (n or [1])[0], (f, s.count(old)); open(p, "w").write(s.replace(old, new))
d = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
open(S + "/patch.diff", "w").write(d)
json.dump(dict(property=prop, needs=spec["needs"], what_it_breaks=spec["breaks"]), open(S + "/meta.json", "w"), indent=1)
if "demo" in spec: open(S + "/demo.c", "w").write('#include "demo.h"\n' + spec["demo"])
if os.path.exists(S + "/demo.sh"): os.unlink(S + "/demo.sh")
if "sh" in spec: open(S + "/demo.sh", "w").write(spec["sh"])
sys.exit(subprocess.run(["bash", "/verif/tools/seedkit/mk.sh", ID, cfgs]).returncode)
