"""Helpers to write planted bugs (seeded/<id>): used by hand, never by a check."""
import json, os, shutil, stat, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import scn
from fam import *            # stage(), cg(), stmt(), scenario(), use(), key(), ...

ENVSH = """export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/kit" "$tmp/kit"
cd "$tmp/kit" && cat /repo/go.sum >> go.sum
"""


def _common(id, prop, needs, breaks, patch):
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "kit"))
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    return d


def run_demo(id, prop, needs, breaks, patch, sc, assertion, tries=1, want=1):
    """runs a scenario against the real finch; assertion: python code over ev (events), bad(msg)"""
    d = _common(id, prop, needs, breaks, patch)
    for f in os.listdir(os.path.join(V, "harness")):
        p = os.path.join(V, "harness", f)
        if os.path.isfile(p) and (f.endswith(".go") or f in ("go.mod", "go.sum")):
            shutil.copy(p, os.path.join(d, "kit", f))
    r = scn.render(sc, "@DIR@")
    json.dump(r, open(os.path.join(d, "scenario.json"), "w"), indent=1)
    open(os.path.join(d, "assert.py"), "w").write('''import json, sys
ev = []
for line in open(sys.argv[1]):
    try: ev.append(json.loads(line))
    except ValueError: pass
def bad(msg):
    print("FAILED:", msg); sys.exit(1)
q = [e for e in ev if e["e"] == "q"]
stmts = [e for e in q if e["kind"] == "stmt"]
''' + assertion)
    _sh(d, ENVSH + '''go build -o "$tmp/h" . || exit 0
n=0
for i in $(seq 1 %d); do
  mkdir -p "$tmp/run$i"
  sed "s|@DIR@|$tmp/run$i|g" "$here/scenario.json" > "$tmp/run$i/scenario.json"
  timeout 120 "$tmp/h" run "$tmp/run$i/scenario.json" > "$tmp/log" 2>&1
  python3 "$here/assert.py" "$tmp/run$i/trace.ndjson" && continue
  n=$((n+1)); [ $n -ge %d ] && exit 1
done
exit 0
''' % (tries, want))


def go_demo(id, prop, needs, breaks, patch, main, files=None):
    """a Go program importing finch; exits non-zero when broken"""
    d = _common(id, prop, needs, breaks, patch)
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(V, "harness", f), os.path.join(d, "kit", f))
    open(os.path.join(d, "kit", "main.go"), "w").write(main)
    for k, v in (files or {}).items():
        open(os.path.join(d, "kit", k), "w").write(v)
    _sh(d, ENVSH + '''go build -o "$tmp/h" . || exit 0
timeout 200 "$tmp/h"
''')


def _sh(d, body):
    p = os.path.join(d, "demo.sh")
    open(p, "w").write("#!/bin/bash\n" + body)
    os.chmod(p, 0o755)
