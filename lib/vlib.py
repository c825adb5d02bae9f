"""Shared plumbing: build the harness, run scenarios, run TLC, report."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib, atexit
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"

ENV = dict(os.environ)
ENV.update(HOME="/root", GOROOT="/opt/veriftools/go1.27.3", GOTOOLCHAIN="local", GOFLAGS="-mod=mod",
           GOPROXY="off", GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
           GOCACHE="/root/.cache/go-build")
ENV["PATH"] = "/opt/veriftools/go1.27.3/bin:" + ENV.get("PATH", "/usr/bin:/bin")

_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="verif.")
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


class Broken(Exception):
    """the check itself could not run (build failure, tool failure)"""


def build(race=False):
    """Build the harness against the current tree of /repo."""
    out = os.path.join(tmpdir(), "harness.race" if race else "harness")
    if os.path.exists(out):
        return out
    src = os.path.join(tmpdir(), "hsrc")
    if not os.path.exists(src):
        shutil.copytree(os.path.join(VERIF, "harness"), src)
        if REPO != "/repo":
            p = os.path.join(src, "go.mod")
            t = open(p).read().replace("=> /repo", "=> " + REPO)
            open(p, "w").write(t)
        # versions required by the tree under test
        rm = open(os.path.join(REPO, "go.mod")).read()
        rs = open(os.path.join(REPO, "go.sum")).read()
        p = os.path.join(src, "go.sum")
        have = open(p).read()
        open(p, "w").write(have + "".join(l + "\n" for l in rs.splitlines() if l not in have))
    r = subprocess.run(["go", "build"] + (["-race"] if race else []) + ["-o", out, "."], cwd=src, env=ENV,
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("harness does not build:\n" + r.stderr[-4000:])
    return out


def run_scenario(h, d, spec, timeout=None):
    """spec: rendered scenario dict with dir d.  Returns events."""
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "scenario.json")
    json.dump(spec, open(f, "w"))
    to = (spec.get("timeout", 30000) / 1000.0) + 30
    p = subprocess.Popen([h, "run", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=to)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        raise Broken("harness hung in scenario " + spec["id"])
    if p.returncode != 0:
        raise Broken("harness failed in scenario %s: %s" % (spec["id"], out[-2000:]))
    ev = []
    for line in open(os.path.join(d, "trace.ndjson")):
        line = line.strip()
        if line:
            try:
                ev.append(json.loads(line))
            except ValueError:
                pass
    return ev


def harness(mode, *args, inp=None, timeout=600, race=False):
    h = build(race)
    r = subprocess.run([h, mode] + list(args), input=inp, capture_output=True, text=True, timeout=timeout, env=dict(ENV, TMPDIR=tmpdir()))
    return r


def pmap(f, xs, n=8):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))


def tlc(module, cfg=None, env=None, workers=1, timeout=800, heap="3g", extra=(), simulate=None, depth=None, seed=None,
        cfgtext=None):
    """Run TLC on spec/<module>.tla.  Returns (rc, output, stats)."""
    md = tempfile.mkdtemp(prefix="tlc.", dir=tmpdir())
    if cfgtext is not None:
        cfgf = os.path.join(md, module + ".cfg")
        open(cfgf, "w").write(cfgtext)
    else:
        cfgf = os.path.join(SPEC, (cfg or module) + ".cfg")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + md, "-cp", TLAJAR + ":" + CM, "tlc2.TLC",
           "-metadir", md, "-noGenerateSpecTE", "-config", cfgf, "-workers", str(workers)]
    if simulate:
        cmd += ["-simulate", simulate]
    if depth:
        cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(ENV)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=SPEC)
    except subprocess.TimeoutExpired as x:
        raise Broken("TLC timed out on %s" % module)
    out = r.stdout + r.stderr
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    st = dict(generated=int(m.group(1)), distinct=int(m.group(2))) if m else dict(generated=0, distinct=0)
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    st["depth"] = int(m.group(1)) if m else 0
    shutil.rmtree(md, ignore_errors=True)
    return r.returncode, out, st


def tlc_ok(module, **kw):
    rc, out, st = tlc(module, **kw)
    if rc != 0:
        raise Broken("TLC on %s (rc %d):\n%s" % (module, rc, out[-2500:]))
    return out, st


def robust(check, items, bad, depth=0):
    """check(items) -> (results, stats); items that make the judgement itself fail
    (a recorded value the specification has no meaning for) get the result bad(item)"""
    try:
        return check(items)
    except Broken as e:
        if "Parsing or semantic analysis failed" in str(e) or "timed out" in str(e):
            raise
        err = e
    except (KeyError, ValueError, TypeError, IndexError, AttributeError) as e:
        err = e
    if len(items) == 1:
        return [bad(items[0], err)], dict(generated=0, distinct=0)
    if depth > 12:
        raise err
    h = len(items) // 2
    r1, s1 = robust(check, items[:h], bad, depth + 1)
    r2, s2 = robust(check, items[h:], bad, depth + 1)
    return r1 + r2, dict(generated=s1["generated"] + s2["generated"], distinct=s1["distinct"] + s2["distinct"])


def judge(module, cases, encode, n=6):
    """TLC judges the cases with spec/<module>.tla, which prints <<"BAD", i>>.
    Returns (indexes of bad cases, [states, transitions])"""
    def one(ix):
        f = os.path.join(tmpdir(), "j%s.json" % os.urandom(6).hex())
        json.dump(encode([cases[i] for i in ix]), open(f, "w"))
        try:
            out, st = tlc_ok(module, env=dict(VERIF_IN=f), timeout=800, cfgtext="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
        finally:
            os.unlink(f)
        b = {int(m) - 1 for m in re.findall(r'<<"BAD", (\d+)>>', out)}
        return [k in b for k in range(len(ix))], st
    chunks = [list(range(k, len(cases), n)) for k in range(n) if k < len(cases)]
    bad, states = [], [0, 0]
    for ix, (r, st) in zip(chunks, pmap(lambda ix: robust(one, ix, lambda i, e: True), chunks, n)):
        bad += [i for i, b in zip(ix, r) if b]
        states[0] += st["distinct"]
        states[1] += st["generated"]
    return sorted(bad), states
