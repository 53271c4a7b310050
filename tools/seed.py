#!/usr/bin/env python3
"""Makes one planted bug: python3 tools/seed.py NAME < description (JSON on stdin):
{"property","needs","breaks","edits":[[file,old,new],...],"demo":nujel source,"expected":output}
Applies the edits in a scratch copy of /repo, confirms that it builds, that the
stable tests pass and that the demonstration tells the trees apart, and stores it."""
import json, os, shutil, subprocess, sys
name = sys.argv[1]
d = json.load(sys.stdin)
W = "/tmp/seed-" + name
shutil.rmtree(W, ignore_errors=True)
shutil.copytree("/repo", W, symlinks=True)
out = "/verif/seeded/" + name
shutil.rmtree(out, ignore_errors=True)
os.makedirs(out)
for f, old, new in d["edits"]:
    s = open(W + "/" + f).read()
    assert s.count(old) == 1, (f, s.count(old))
    open(W + "/" + f, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
open(out + "/patch.diff", "w").write(diff)
for f, old, new in d["edits"]:
    orig = subprocess.run(["git", "-C", "/repo", "show", "2d0611a:" + f], capture_output=True, text=True).stdout.split("\n")
    for l in diff.split("\n"):
        if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in orig:
            print("WARNING: not an original line:", l)
if d.get("demo") is not None:
    open(out + "/demo.nuj", "w").write(d["demo"])
    open(out + "/expected.txt", "w").write(d["expected"].rstrip("\n") + "\n")
    open(out + "/demo.sh", "w").write('''#!/bin/sh
# Runs demo.nuj and compares its output with expected.txt
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
bin=$(pwd)/future-nujel
cp "$d"/*.nuj "$t"/
cd "$t" || exit 2
timeout 120 "$bin" demo.nuj 2>&1 | tr -d "\\015" > out.txt
diff out.txt "$d/expected.txt" || exit 1
''')
else:
    open(out + "/demo.sh", "w").write(d["demo_sh"])
for f, t in d.get("files", {}).items():
    open(out + "/" + f, "w").write(t)
os.chmod(out + "/demo.sh", 0o755)
json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
r0 = subprocess.run(["sh", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
print("demo on /repo:", r0.returncode, r0.stdout[-300:], r0.stderr[-300:])
N = "/tmp/vp-" + name   # the build and test scripts, for the copy
subprocess.run("rm -rf %s; cp -r /opt/vp %s; sed -i 's#/repo#%s#g; s#/opt/vp#%s#g' %s/*.sh %s/*.py" % (N, N, W, N, N, N), shell=True)
b = subprocess.run("bash %s/build.sh > %s/log 2>&1" % (N, N), shell=True)
print("build:", b.returncode)
r1 = subprocess.run(["sh", out + "/demo.sh"], cwd=W, capture_output=True, text=True)
print("demo on patched:", r1.returncode, r1.stdout[-400:], r1.stderr[-300:])
t = subprocess.run("bash %s/test.sh %s/out.json > %s/log 2>&1" % (N, N, N), shell=True)
try:
    j = json.load(open(N + "/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base.get("stable") or base.get("passed") or base.get("tests") or base)
    print("tests passed %d failed %d missing stable %d" % (len(j["passed"]), len(j["failed"]), len(stable - set(j["passed"]))), list(stable - set(j["passed"]))[:5])
except Exception as e:
    print("tests?", e)
shutil.rmtree(W, ignore_errors=True)
shutil.rmtree(N, ignore_errors=True)
