#!/usr/bin/env python3
"""Confirms planted bugs (development only; no check reads seeded/).

plant.py verify ID...      apply, build, stable tests, demo with and without
plant.py check ID...       also run the property's quick check on the patch
plant.py make ID FILE OLDFILE NEWFILE   write patch.diff from a replacement
"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def make(id, edits):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    assert not sh(f"git -C {R} status --porcelain").stdout.strip()
    try:
        for file, old, new in edits:
            p = f"{R}/{file}"
            s = open(p).read()
            assert s.count(old) == 1, (file, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        open(f"{d}/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
    finally:
        sh(f"git -C {R} checkout -- .")


def verify(id, check):
    d = f"{V}/seeded/{id}"
    meta = json.load(open(f"{d}/meta.json"))
    assert not sh(f"git -C {R} status --porcelain").stdout.strip()
    ok = True
    r0 = sh(f"bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash {d}/demo.sh", cwd=R)
    if r0.returncode != 0:
        print(id, "DEMO FAILS ON CLEAN TREE", r0.stdout[-2000:]); ok = False
    a = sh(f"git -C {R} apply {d}/patch.diff")
    if a.returncode:
        print(id, "PATCH DOES NOT APPLY", a.stdout); return False
    try:
        t = sh("bash /opt/vp/test.sh /tmp/plant.json")
        res = json.load(open("/tmp/plant.json"))
        if res["failed"] or len(res["passed"]) < 9:
            print(id, "STABLE TESTS", res, t.stdout[-1500:]); ok = False
        r1 = sh(f"timeout 300 bash {d}/demo.sh", cwd=R)
        if r1.returncode == 0:
            print(id, "DEMO PASSES WITH PATCH", r1.stdout[-500:]); ok = False
        if check:
            t0 = time.time()
            p = meta["property"]
            c = sh(f"VERIF_SEED=1 VERIF_TIER=quick python3 run.py {p} quick", cwd=V)
            line = [l for l in c.stdout.splitlines() if "VIOLATION" in l]
            print(id, p, "demo rc", r1.returncode, "| check rc", c.returncode,
                  "CAUGHT" if c.returncode == 1 and line else "MISSED",
                  f"{time.time()-t0:.0f}s", (line or [""])[0][:150])
        else:
            print(id, "ok" if ok else "BAD", "demo rc", r1.returncode, r1.stdout.strip()[-150:])
    finally:
        sh(f"git -C {R} checkout -- .")
        sh("bash /opt/vp/build.sh")
    return ok


if __name__ == "__main__":
    for i in sys.argv[2:]:
        verify(i, sys.argv[1] == "check")
