#!/usr/bin/env python3
"""plant.py SPEC.py [...]: turn a planted-bug spec into /verif/seeded/<id>/ after confirming it.

A spec file defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, MAIN (the demo's main.rs).
Confirms: demo passes on the unchanged tree, patched tree builds, stable tests pass, demo fails.
Then runs the property's quick check on the patched tree and reports whether it is caught.
"""
import json, os, shutil, subprocess, sys

V = "/verif"
os.environ["DEMO_TARGET"] = "/tmp/demotarget"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def demo(d):
    r = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-1500:]


def main(spec):
    g = {}
    exec(open(spec).read(), g)
    d = f"{V}/seeded/{g['ID']}"
    os.makedirs(d + "/src", exist_ok=True)
    for f in ["Cargo.toml", "Cargo.lock", "demo.sh", "src/lab.rs"]:
        shutil.copy(f"{V}/tools/demo/{f}", f"{d}/{f}")
    open(d + "/src/main.rs", "w").write(g["MAIN"])
    assert sh("git -C /repo status --porcelain -uno").stdout == "", "/repo not clean"
    rc, out = demo(d)
    if rc != 0:
        print(g["ID"], "DEMO FAILS UNCHANGED", out)
        return 1
    try:
        for f, old, new in g["EDITS"]:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        r = sh("bash /opt/vp/build.sh")
        if r.returncode != 0:
            print("BUILD FAILS", r.stdout[-2000:], r.stderr[-2000:])
            return 1
        if "common/" in diff:
            sh("bash /opt/vp/test.sh /tmp/plant.json")
            res = json.load(open("/tmp/plant.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            names = base if isinstance(base, list) else base.get("stable", base.get("passed", []))
            passed = res.get("passed", [])
            bad = [n for n in names if n not in passed]
            if bad:
                print("STABLE TESTS FAIL", bad)
                return 1
        rc, out = demo(d)
        print(g["ID"], "demo with patch rc", rc, out.strip().splitlines()[-1:] )
        if rc == 0:
            print("DEMO DOES NOT FAIL")
            return 1
        for prop in [g["PROP"]] + g.get("ALSO", []):
            r = sh(f"{V}/run.sh {prop} quick", cwd=V)
            lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l][:2]
            print(g["ID"], prop, "rc", r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED", lines, r.stderr[-300:] if r.returncode > 1 else "")
    finally:
        sh("git -C /repo checkout -- .")
    json.dump(
        {"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]},
        open(d + "/meta.json", "w"),
        indent=1,
    )
    return 0


if __name__ == "__main__":
    for s in sys.argv[1:]:
        main(s)
