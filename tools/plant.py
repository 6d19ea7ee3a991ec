#!/usr/bin/env python3
"""plant.py SPEC.py [check]: makes seeded/<id> from a spec and confirms it in a scratch copy.
SPEC.py sets: id, property, edits=[(file, old, new)], pkg, demo (Go test source or None), sh (extra shell demo), needs, breaks."""
import json, os, re, shutil, subprocess, sys, tempfile
V = "/verif"
def sh(c, cwd, env=None):
    p = subprocess.run(["bash", "-c", "set -a; . /opt/vp/env.sh; set +a; " + c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    return p.returncode, p.stdout
DEMO = '''#!/bin/bash
# exit 0 when the property holds in the demonstrated case
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(p)szz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$ov"
go test -count=1 -vet=off -timeout 120s -overlay "$ov" -run 'TestVerifDemo' ./%(p)s
'''
def main(spec, check):
    ns = {}
    exec(open(spec).read(), ns)
    w = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = w + "/repo"
        sh("cp -a /repo %s" % repo, "/")
        out = os.path.join(V, "seeded", ns["id"])
        os.makedirs(out, exist_ok=True)
        for f, a, b in ns["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            n = s.count(a)
            if n != 1:
                print("BAD: %d matches in %s" % (n, f)); return 1
            open(p, "w").write(s.replace(a, b))
        rc, d = sh("git diff", repo)
        open(out + "/patch.diff", "w").write(d)
        pkg = ns["pkg"].rstrip("/")
        pkg = pkg + "/" if pkg and pkg != "." else ""
        demo = ns.get("sh") or DEMO % {"p": pkg}
        open(out + "/demo.sh", "w").write(demo)
        os.chmod(out + "/demo.sh", 0o755)
        if ns.get("demo"):
            open(out + "/demo_test.go", "w").write(ns["demo"])
            sh("gofmt -w %s/demo_test.go" % out, "/")
        json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        # lines of the original repository?
        rc, o = sh("go build ./... && go test -vet=off -count=1 ./... 2>&1 | grep -v 'no test files'", repo)
        ok_t = rc == 0 and "FAIL" not in o
        rc1, o1 = sh("bash %s/demo.sh" % out, "/repo")
        rc2, o2 = sh("bash %s/demo.sh" % out, repo)
        print("%s tests pass=%s demo unchanged=%d patched=%d" % (ns["id"], ok_t, rc1, rc2))
        if not ok_t: print(o[-1500:])
        if rc1 != 0: print(o1[-1500:])
        if rc2 == 0 or "panic: test timed" in o2 or "build failed" in o2: print(o2[-1500:])
        if not (ok_t and rc1 == 0 and rc2 != 0):
            return 1
        if check:
            env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
            rc, o = sh("%s/check.sh %s" % (V, ns["property"]), V, env)
            print("check rc=%d\n%s" % (rc, o[-900:]))
        return 0
    finally:
        shutil.rmtree(w, ignore_errors=True)
sys.exit(max([main(s, "check" in sys.argv) for s in sys.argv[1:] if s != "check"] or [0]))
