#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from seeds.py: patch.diff against /repo's HEAD, demo.sh, demo_test.go, meta.json."""
import json, os, subprocess, sys, shutil, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from seeds import SEEDS
DEMO = '''#!/bin/bash
# Exit 0: the behaviour is right. Otherwise it is not. Runs the test beside this file in package @PKG@.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/sardir"
export SARDIR="$t/sardir" TMPDIR="$t"
# linux/amd64 has no SO_REUSEPORT in package syscall
sed 's/syscall\\.SO_REUSEPORT/15/' /repo/sarnet/sarnet.go > "$t/sarnet.go" || exit 2
cat > "$t/overlay.json" <<J
{"Replace": {
 "/repo/go.mod": "/opt/vp/gomod/root.go.mod",
 "/repo/sarflags/go.mod": "/opt/vp/gomod/sarflags.go.mod",
 "/repo/sarnet/sarnet.go": "$t/sarnet.go",
 "/repo/@PKG@/zz_demo_test.go": "$here/demo_test.go"}}
J
export GOFLAGS=
cd /repo || exit 2
go test -overlay "$t/overlay.json" -vet=off -count=1 -timeout 120s @RACE@-run '^TestDemo$' "$MOD/@PKG@"
'''
def main():
    want = sys.argv[1:]
    for s in SEEDS:
        if want and s["id"] not in want: continue
        d = os.path.join(os.path.dirname(here), "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        with tempfile.TemporaryDirectory() as t:
            for f, old, new in s["edits"]:
                src = os.path.join(t, "a", f)
                if not os.path.exists(src):
                    for x in "ab":
                        p = os.path.join(t, x, f); os.makedirs(os.path.dirname(p), exist_ok=True)
                        open(p, "wb").write(subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + f]))
                p = os.path.join(t, "b", f)
                txt = open(p).read()
                n = txt.count(old)
                assert n == 1, (s["id"], f, n, old)
                open(p, "w").write(txt.replace(old, new))
            files = sorted({f for f, _, _ in s["edits"]})
            out = b""
            for f in files:
                r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "a/" + f, "b/" + f], cwd=t, stdout=subprocess.PIPE)
                out += ("diff --git a/%s b/%s\n" % (f, f)).encode() + r.stdout
            open(os.path.join(d, "patch.diff"), "wb").write(out)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        p = os.path.join(d, "demo.sh")
        open(p, "w").write(DEMO.replace("@PKG@", s["pkg"]).replace("@RACE@", ""))
        os.chmod(p, 0o755)
        open(os.path.join(d, "demo_test.go"), "w").write(s["demo"].lstrip())
main()
