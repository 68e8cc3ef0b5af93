#!/usr/bin/env python3
"""tools/seed.py ID... : try planted bugs: apply to /repo, build, test, demo, check, undo."""
import json, os, subprocess, sys, time
R = "/repo"; V = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def one(i):
    d = os.path.join(V, i); meta = json.load(open(d + "/meta.json")); res = {}
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    if sh("git -C /repo apply --check %s/patch.diff" % d).returncode: return "patch does not apply"
    try:
        sh("git -C /repo apply %s/patch.diff" % d)
        r = sh("bash /tmp/gt.sh"); res["tests"] = r.stdout.decode().strip()[-200:]
        if r.returncode: return res
        r = sh("bash %s/demo.sh" % d, cwd=R); res["demo_patched"] = (r.returncode, r.stdout.decode("utf-8", "replace")[-300:])
        for p in [meta["property"]] + sys.argv_extra:
            t = time.time(); r = sh([sys.executable, "/verif/check.py", p, "--tier", "quick"], cwd="/verif"); res[p] = (r.returncode, round(time.time() - t), r.stdout.decode("utf-8", "replace")[-500:])
    finally:
        sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh"); r = sh("bash %s/demo.sh" % d, cwd=R); res["demo_clean"] = (r.returncode, r.stdout.decode("utf-8", "replace")[-300:])
    return res
sys.argv_extra = [a for a in sys.argv[1:] if len(a) == 3 and a[0] == "C" and a[1:].isdigit()]
for i in [a for a in sys.argv[1:] if a not in sys.argv_extra]:
    r = one(i); print("==", i)
    if isinstance(r, str): print("  ", r)
    else:
        for k, v in r.items(): print("  ", k, v if isinstance(v, str) else "\n      ".join(map(str, v)))
    sys.stdout.flush()
