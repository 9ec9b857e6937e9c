#!/usr/bin/env python3
"""Development tool: verify planted bugs (seeded/<id>): applies, builds, passes the stable tests, demo 0/nonzero, which check reports it.
usage: plant.py [--no-tests] [--checks P01,P02] ID..."""
import json, os, subprocess, sys
root = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
args = sys.argv[1:]; notests = "--no-tests" in args; args = [a for a in args if a != "--no-tests"]
checks = None
if "--checks" in args: i = args.index("--checks"); checks = args[i+1].split(","); del args[i:i+2]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def git(c): return sh("git -C /repo " + c)
assert not git("status --porcelain").stdout.strip(), "repo not clean"
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for i in args:
    d = f"{root}/seeded/{i}"; meta = json.load(open(d + "/meta.json"))
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    print(i, "demo clean rc", r.returncode, r.stdout[-300:] + r.stderr[-600:] if r.returncode else "", flush=True)
    try:
        a = git(f"apply {d}/patch.diff"); assert a.returncode == 0, a.stderr
        r = sh(f"bash {d}/demo.sh", cwd="/repo"); print(i, "demo patched rc", r.returncode, (r.stdout + r.stderr)[-200:].replace("\n", " | "), flush=True)
        if not notests:
            b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/plant.json")
            o = json.load(open("/tmp/plant.json")); p = set(o.get("passed", []))
            print(i, "build", b.returncode, "missing stable", sorted(stable - p)[:5], flush=True)
        for c in checks or [meta["property"]]:
            r = sh(f"python3 {root}/run_check.py {c} --jobs 8 --tier quick --seed 1", cwd=root)
            print(i, c, "rc", r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l or "violat" in l][:3], flush=True)
    finally:
        git("checkout -- .")
