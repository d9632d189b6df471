#!/usr/bin/env python3
"""Makes planted bugs: plant.py FILE.py [ID ...] reads bugs (B(...) calls) from FILE.py, confirms each in a scratch copy
of /repo (it builds, the tests pass, the demonstration passes without it and fails with it), writes /verif/seeded/ID and
runs the property's check on it.  Not part of any check."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []
DEMO = '''#!/bin/bash
# run in the repository; 0 if the property holds
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cat > "$d/overlay.json" <<EOF
{"Replace": {"$PWD/%(dir)szz_demo_test.go": "$here/demo.go.txt"}}
EOF
"$GO" test -overlay "$d/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' %(pkg)s
'''


def B(id, prop, edits, pkg, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, pkg=pkg, demo=demo, needs=needs, breaks=breaks))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def one(b, check):
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        r = os.path.join(tmp, "repo")
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        d = os.path.join(tmp, b["id"])
        os.makedirs(d)
        sub = b["pkg"].strip("./")
        open(d + "/demo.sh", "w").write(DEMO % dict(dir=sub + "/" if sub else "", pkg="./" + sub if sub else "."))
        open(d + "/demo.go.txt", "w").write(b["demo"].lstrip())
        os.chmod(d + "/demo.sh", 0o755)
        x = sh("bash %s/demo.sh" % d, r)
        if x.returncode:
            return "demo fails on the unchanged tree:\n" + x.stdout[-1500:] + x.stderr[-1500:]
        for f, old, new in b["edits"]:
            t = open(r + "/" + f).read()
            if t.count(old) != 1:
                return "text occurs %d times in %s: %s" % (t.count(old), f, old)
            open(r + "/" + f, "w").write(t.replace(old, new))
        x = sh(". /opt/vp/env.sh; $GO build ./... && $GO vet ./%s" % sub, r)
        if x.returncode:
            return "does not build:\n" + x.stdout + x.stderr
        x = sh(". /opt/vp/env.sh; $GO test -vet=off -count=1 -p 1 -exec /opt/vp/exec.sh ./...", r)
        if x.returncode:
            return "tests fail:\n" + "\n".join(l for l in x.stdout.split("\n") if "FAIL" in l)
        x = sh("bash %s/demo.sh" % d, r)
        if x.returncode == 0:
            return "demo passes with the change"
        print("   demo:", [l.strip() for l in (x.stdout + x.stderr).split("\n") if "demo_test" in l or "panic" in l][:2])
        open(d + "/patch.diff", "w").write(sh("git diff", r).stdout)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        out = os.path.join(VERIF, "seeded", b["id"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        if check:
            x = sh("timeout 900 python3 check.py " + b["prop"], VERIF, env=dict(os.environ, VERIF_REPO=r))
            lines = x.stdout.strip().split("\n")
            if x.returncode == 1:
                return "CAUGHT " + lines[-1]
            return "MISSED rc=%d %s" % (x.returncode, lines[-1] + x.stderr[-300:])
        return "ok"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), dict(B=B))
    for b in BUGS:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
            continue
        print(b["id"], b["prop"], flush=True)
        print("  ", one(b, True), flush=True)
