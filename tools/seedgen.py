#!/usr/bin/env python3
"""Builds /verif/seeded/* from the edits below and confirms each: it applies, builds, passes the stable tests, and its
demonstration passes without it and fails with it. usage: seedgen.py [id ...]"""
import os, sys, json, subprocess, shutil, tempfile
SEED = "/verif/seeded"
B = {}
def bug(id, prop, pkg, edits, demo, needs, breaks):
    B[id] = (prop, pkg, edits, demo, needs, breaks)
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds.py")).read())
DEMO = '''#!/bin/bash
# exit 0: the property holds for this demonstration
d="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%s/zz_demo_test.go" "$d/demo.go.txt" > "$t/ov.json"
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
go test -overlay "$t/ov.json" -vet=off -count=1 -timeout 250s -run '^TestDemo$' ./%s
'''
def sh(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ids = sys.argv[1:] or list(B)
for id in ids:
    prop, pkg, edits, demo, needs, breaks = B[id]
    w = tempfile.mkdtemp(prefix="seed-")
    r = os.path.join(w, "repo")
    sh("cp -a /repo %s && git checkout -q -- ." % r, "/")
    for f, a, b in edits:
        p = os.path.join(r, f)
        s = open(p).read()
        if s.count(a) != 1:
            print(id, "EDIT", f, s.count(a), repr(a[:60])); break
        open(p, "w").write(s.replace(a, b))
    else:
        fm = sh("gofmt -l */*.go", r).stdout
        if fm.strip(): print(id, "gofmt", fm)
        d = os.path.join(SEED, id)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", r).stdout)
        open(os.path.join(d, "demo.go.txt"), "w").write(demo)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % (pkg, pkg)); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        env = "HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off "
        t = sh(env + "go test -vet=off -count=1 ./... 2>&1 | grep -v 'no test files'", r).stdout
        ok = "FAIL" not in t
        c = sh(os.path.join(d, "demo.sh"), "/repo")
        m = sh(os.path.join(d, "demo.sh"), r)
        good = ok and c.returncode == 0 and m.returncode != 0 and "build failed" not in m.stdout
        print(id, "OK" if good else "BAD tests=%s clean=%d patched=%d" % (ok, c.returncode, m.returncode), "|", m.stdout.strip().splitlines()[1:3] if good else "")
        if not good:
            print((t if not ok else "")[-1500:], c.stdout[-1500:] if c.returncode else "", m.stdout[-600:])
    shutil.rmtree(w)
