#!/usr/bin/env python3
"""Developer tool (used by no check): validates planted bugs.
seedtool.py [--no-tests] ID...    apply, build, stable tests, demo (must fail), checks of the property (report), undo, demo (must pass)."""
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
args = [a for a in sys.argv[1:] if not a.startswith("--")]
notests = "--no-tests" in sys.argv
nocheck = "--no-check" in sys.argv
for sid in args:
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    res = {"id": sid}
    if sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip():
        print("repo dirty"); sys.exit(1)
    r = sh("cd /repo && bash %s/demo.sh" % d, timeout=400); res["demo_clean"] = r.returncode
    if r.returncode: print(r.stdout[-1500:], r.stderr[-1500:])
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode: print(sid, "DOES NOT APPLY", r.stderr); continue
    try:
        if not notests:
            r = sh("bash /opt/vp/build.sh"); res["build"] = r.returncode
            if r.returncode: print(r.stdout[-2000:])
            sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            b = json.load(open("/opt/vp/BASELINE.json"))["stable"]; o = set(json.load(open("/tmp/seed_out.json"))["passed"])
            res["missing"] = [x for x in b if x not in o][:5]
        r = sh("cd /repo && bash %s/demo.sh" % d, timeout=400); res["demo_bug"] = r.returncode
        if r.returncode == 0: print(r.stdout[-1500:], r.stderr[-500:])
        if not nocheck:
            for p in [meta["property"]]:
                t = time.time()
                r = sh("cd %s && VERIF_SEED=1 VERIF_TIER=quick VERIF_DEV=1 python3 vlib/runner.py %s" % (V, p), timeout=1500)
                keys = [l.strip()[:140] for l in r.stdout.splitlines() if " :: " in l][:3]
                res["check"] = (r.returncode, round(time.time() - t), keys)
    finally:
        sh("git -C /repo checkout -- .")
    ok = res["demo_clean"] == 0 and res.get("demo_bug") and not res.get("missing") and not res.get("build")
    print(("OK  " if ok else "BAD ") + ("CAUGHT " if res.get("check", (0,))[0] == 1 else "missed "), json.dumps(res), flush=True)
