#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS BREAKS: stores /repo's uncommitted change as planted bug ID; demo.rs comes from stdin."""
import sys, os, json, subprocess, shutil
i, prop, needs, what = sys.argv[1:5]
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(["git", "-C", "/repo", "diff"]).decode()
assert diff.strip(), "no change in /repo"
open(d + "/patch.diff", "w").write(diff)
src = sys.stdin.read()
if "//PRELUDE" in src:
    src = src.replace("//PRELUDE", open("/verif/tools/demo_prelude.rs").read())
open(d + "/demo.rs", "w").write(src)
shutil.copy("/verif/tools/demo.sh.in", d + "/demo.sh")
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
