#!/usr/bin/env python3
"""tools/seed.py new ID PROP  <spec on stdin>   create /verif/seeded/ID from edits
   tools/seed.py test ID [PROP..]               validate it and run checks against it
spec: python source defining EDITS=[(file, old, new)], DEMO (shell), NEEDS, BREAKS"""
import sys, os, json, subprocess, shutil, tempfile
V = "/verif/seeded/"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def build():
    r = sh("bash /opt/vp/build.sh")
    return r.returncode == 0
def tests():
    sh("bash /opt/vp/test.sh /tmp/o.json >/tmp/o.log 2>&1")
    return sh("tail -1 /tmp/o.log").stdout.strip()
def demo(d):
    t = tempfile.mkdtemp()
    for f in os.listdir(d):
        if not f.endswith((".diff", ".json")): shutil.copy(d + "/" + f, t)
    r = sh("bash %s/demo.sh" % t, cwd="/repo", timeout=300)
    shutil.rmtree(t)
    return r.returncode, (r.stdout + r.stderr)[-300:]
def clean():
    assert not sh("git -C /repo status --short").stdout, "dirty repo"
def new(i, prop):
    ns = {}
    exec(sys.stdin.read(), ns)
    clean()
    d = V + i
    os.makedirs(d, exist_ok=True)
    try:
        for f, a, b in ns["EDITS"]:
            p = "/repo/src/" + f
            s = open(p, encoding="latin-1").read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, "w", encoding="latin-1").write(s.replace(a, b))
        open(d + "/patch.diff", "w", encoding="latin-1").write(subprocess.run("git -C /repo diff -U10", shell=True, capture_output=True).stdout.decode("latin-1"))
    finally:
        sh("git -C /repo checkout -- .")
    open(d + "/demo.sh", "w").write("#!/bin/bash\n# exit 0: behaviour is right; 1: it is broken\nMM=\"$PWD/_build/main/src/metamath\"\nD=$(mktemp -d) || exit 2\ntrap 'rm -rf \"$D\"' EXIT\ncd \"$D\" || exit 2\nmm() { printf '%s\\n' 'set scroll continuous' \"$@\" | timeout 60 \"$MM\" 2>&1; }\n" + ns["DEMO"].strip("\n") + "\n")
    json.dump(dict(property=prop, needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    test(i, [prop])
def test(i, props):
    clean()
    d = V + i
    if not props: props = [json.load(open(d + "/meta.json"))["property"]]
    assert build(); a = demo(d)
    r = sh("git -C /repo apply " + d + "/patch.diff"); assert r.returncode == 0, r.stderr
    try:
        ok = build(); t = tests(); b = demo(d)
        print(i, "build", ok, "| tests", t, "| demo clean", a, "| demo bug", b[0], b[1][-200:].replace("\n", " / "))
        if "44 passed, 0 failed" not in t or a[0] != 0 or b[0] == 0: print("   *** NOT VALID")
        for p in props:
            r = sh("cd /verif && timeout 900 python3 run.py " + p)
            n = sum("VIOLATION property=" + p in l for l in r.stdout.split("\n"))
            print("   %s: rc %d %s %s" % (p, r.returncode, "CAUGHT" if r.returncode == 1 and n else "*** MISSED", (r.stdout + r.stderr)[:300].replace("\n", " / ")))
    finally:
        sh("git -C /repo checkout -- ."); build()
if sys.argv[1] == "new": new(sys.argv[2], sys.argv[3])
else: test(sys.argv[2], sys.argv[3:])
