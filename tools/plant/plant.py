#!/usr/bin/env python3
"""plant.py [ID...]: writes /verif/seeded/<id>/ from bugs.py, confirming each in a
scratch copy: it builds, the stable tests pass, the demonstration fails with the
change and passes without it."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import bugs
OUT = os.path.join(os.path.dirname(os.path.dirname(here)), "seeded")
DEMO = '''#!/bin/bash
# exit 0 if the behaviour is right, 1 if not
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off
t=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf -- "$t"' EXIT
printf '{"Replace":{"%%s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$d" > "$t/o.json"
go test -overlay "$t/o.json" %s-run '^TestDemo$' -count=1 -timeout 200s .
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, errors="replace", **k)
stable = json.load(open("/opt/vp/BASELINE.json"))
def main():
    want = sys.argv[1:]
    base = {f: sh("git show 7513962:" + f, "/repo").stdout.split("\n") for f in sh("git ls-files '*.go'", "/repo").stdout.split()}
    for b in bugs.B:
        if want and b["id"] not in want: continue
        if not want and os.path.exists(os.path.join(OUT, b["id"], "patch.diff")): continue
        t = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
        try:
            sh("cp -a /repo %s/r" % t, "/tmp")
            r = t + "/r"
            ok = True
            for f, old, new in b["edits"]:
                s = open(r + "/" + f).read()
                n = s.count(old)
                if n != 1 and not b.get("nth"):
                    print(b["id"], "edit matches", n, "times:", old[:60]); ok = False; break
                if b.get("nth"):
                    parts = s.split(old); k = b["nth"]
                    s = old.join(parts[:k]) + new + old.join(parts[k:])
                else:
                    s = s.replace(old, new)
                open(r + "/" + f, "w").write(s)
            if not ok: continue
            diff = sh("gofmt -l . ; git diff", r).stdout
            if not diff.startswith("diff"): print(b["id"], "gofmt:", diff[:80]); diff = diff[diff.index("diff --git"):]
            removed = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
            if removed and not any(l in sum(base.values(), []) for l in removed if l.strip()): print(b["id"], "skipped: no removed line is in the base"); continue
            d = os.path.join(OUT, b["id"])
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.sh", "w").write(DEMO % ("-race " if b.get("race") else ""))
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo_test.go.txt", "w").write(bugs.HEAD % ("".join('\t"%s"\n' % i if ' ' not in i else '\t%s "%s"\n' % tuple(i.split(' ')) for i in b.get("imports", [])) + "".join('\t%s\n' % i for i in b.get("raw", []))) + b["demo"])
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
            env = ". /opt/vp/env.sh; export GOFLAGS=-mod=mod GOPROXY=off; "
            bld = sh(env + "go build ./... && go vet . 2>/dev/null; go build ./...", r, executable="/bin/bash")
            tst = sh(env + "go test -count=1 -json ./... ", r, executable="/bin/bash")
            failed = [json.loads(l).get("Test") for l in tst.stdout.split("\n") if l.startswith("{") and '"Action":"fail"' in l]
            with_ = sh("bash %s/demo.sh" % d, r)
            without = sh("bash %s/demo.sh" % d, "/repo")
            good = bld.returncode == 0 and not failed and with_.returncode != 0 and without.returncode == 0
            bf = "build failed" in with_.stdout + with_.stderr
            print(b["id"], b["property"], "OK" if good and not bf else "BAD", "build", bld.returncode, "tests failed", failed, "demo with", with_.returncode, "without", without.returncode)
            if not good or bf: print(bld.stderr[-800:], with_.stdout[-800:], with_.stderr[-400:], without.stdout[-800:])
        finally:
            shutil.rmtree(t)
main()
