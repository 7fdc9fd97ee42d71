"""Make and confirm a planted bug: seed.py SPEC.py  (spec defines ID, PROPERTY, EDITS, DEMO, NEEDS, BREAKS).

Applies the edits to /repo, runs the stable tests, the demonstration and the property's quick check, undoes the edits and
writes /verif/seeded/<ID>/ when the tests pass and the demonstration tells the trees apart."""
import sys, os, subprocess, json
spec = {}
exec(open(sys.argv[1]).read(), spec)
d = "/verif/seeded/" + spec["ID"]
os.makedirs(d, exist_ok=True)
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert sh("git -C /repo status --porcelain").stdout.strip() == ""
open(d + "/demo.py", "w").write(spec["DEMO"].lstrip("\n"))
open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PROJ_NETWORK=OFF\n'
                               'exec timeout 250 /opt/venv-pypy/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
          open(d + "/meta.json", "w"), indent=1)
ok = True
b = sh("bash /opt/vp/build.sh")
r = sh("bash %s/demo.sh" % d, cwd="/repo")
print("clean demo rc", r.returncode, r.stdout[-300:] if r.returncode else "")
ok &= r.returncode == 0
try:
    for path, old, new in spec["EDITS"]:
        p = "/repo/" + path
        s = open(p).read()
        assert s.count(old) == 1, (path, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    b = sh("bash /opt/vp/build.sh")
    if b.returncode:
        print("BUILD FAILED", b.stdout[-1500:])
        ok = False
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    print("bug demo rc", r.returncode, r.stdout[-300:])
    ok &= r.returncode != 0
    if "--notest" not in sys.argv:
        sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        res = json.load(open("/tmp/seedtest.json"))
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        lost = [t for t in stable if t not in set(res["passed"])]
        print("stable tests lost:", lost)
        ok &= not lost
    c = sh("python3 mc/check.py %s --tier quick" % spec["PROPERTY"], cwd="/verif")
    print("check rc", c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l][:2], c.stdout[-600:])
finally:
    sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
print(spec["ID"], "OK" if ok else "NOT VALID", "caught" if c.returncode == 1 else "MISSED")
