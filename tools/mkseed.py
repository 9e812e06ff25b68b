#!/usr/bin/env python3
"""mkseed.py ID...: build the planted bug described in tools/seeds/ID.py in a scratch copy of /repo, confirm that it
builds, passes the tests and that its demonstration tells the two trees apart, and store it in /verif/seeded/ID."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run in /repo after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -DHAVE_CONFIG_H -fno-access-control -I_build/lib/marc -I_build -Ilib -Ilib/marc -I. -Isrc -Iopt/fmt-8.0.1/include \\
    "$D/demo.cpp" %s -L_build/lib/marc/.libs -Wl,-rpath,"$PWD/_build/lib/marc/.libs" -lMaRC %s -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo
'''
def sh(c, cwd=None, **k):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main(i):
    g = {}
    exec(open(os.path.join(V, "tools/seeds", i + ".py")).read(), g)
    d = "/tmp/seed"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    out = os.path.join(d, i)
    os.makedirs(out)
    open(out + "/demo.cpp", "w").write(g["DEMO"])
    open(out + "/demo.sh", "w").write(DEMO % (g.get("SRC", ""), g.get("LIBS", "")))
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    # in place, undone at the end: the build folder belongs to /repo
    assert not sh("git status --short", "/repo").stdout.strip()
    try:
        r = sh("bash /opt/vp/build.sh", "/repo"); assert r.returncode == 0, r.stdout[-2000:]
        r = sh(out + "/demo.sh", "/repo"); print(i, "demo on the unchanged tree:", r.returncode, r.stdout[-400:])
        ok = r.returncode == 0
        for f, a, b in g["EDITS"]:
            s = open("/repo/" + f).read()
            assert s.count(a) == 1, (f, s.count(a))
            open("/repo/" + f, "w").write(s.replace(a, b))
        open(out + "/patch.diff", "w").write(sh("git diff", "/repo").stdout)
        r = sh("bash /opt/vp/build.sh", "/repo")
        if r.returncode:
            print(r.stdout[-2000:]); return
        sh("bash /opt/vp/test.sh /tmp/seed/t.json", "/repo")
        t = json.load(open("/tmp/seed/t.json"))
        print(i, "tests failed:", t["failed"] if isinstance(t["failed"], int) else len(t["failed"]), str(t["failed"])[:200])
        r = sh(out + "/demo.sh", "/repo"); print(i, "demo with the change:", r.returncode, r.stdout[-300:])
        if ok and not t["failed"] and r.returncode not in (0, 2):
            shutil.rmtree(os.path.join(V, "seeded", i), ignore_errors=True)
            shutil.copytree(out, os.path.join(V, "seeded", i))
            print(i, "KEPT")
        if "--check" in sys.argv:
            for p in g["PROPERTY"].split():
                r = sh("python3-vt vc/run.py %s" % p, V); print(i, "check", p, r.returncode, "\n".join(r.stdout.strip().split("\n")[-4:])[:700])
    finally:
        sh("git checkout -- .", "/repo")
        sh("bash /opt/vp/build.sh", "/repo")
        shutil.rmtree(d, ignore_errors=True)
for a in sys.argv[1:]:
    if not a.startswith("-"):
        main(a)
