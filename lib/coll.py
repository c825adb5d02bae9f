"""C15: histories of the statistics collector, from the specification, replayed in the code."""
import json, os, random, re
import vlib

SPECNAME = "Collector.tla"
INV = "INVARIANTS ReportsSound NoneComplete InTime Incomplete\nPROPERTIES Past\n"


def mc(n, k, maxi, emit):
    return "SPECIFICATION Spec\nCONSTANTS N = %d\nK = %d\nMaxI = %d\nEmit = %s\nCHECK_DEADLOCK FALSE\n%s" % (n, k, maxi, "TRUE" if emit else "FALSE", INV)


def histories(n, k, maxi, workers=4):
    """[[("c"|host, interval)...]] of length k, printed by TLC; and its statistics"""
    rc, out, st = vlib.tlc("CollectorMC", cfgtext=mc(n, k, maxi, True), workers=workers, heap="6g", timeout=800)
    if rc != 0:
        raise vlib.Broken("CollectorMC: " + out[-2000:])
    hs = []
    for m in re.finditer(r'<<\s*"H",\s*<<(.*?)>>\s*>>\n', out, re.S):
        hs.append([(a, int(b)) for a, b in re.findall(r'<<"(\w+)", (\d+)>>', m.group(1))])
    return hs, st


def case(n, h, freq="1h", adv=0):
    ops = []
    for k, (a, i) in enumerate(h, 1):
        v = dict(n=k, sec=0, rt=0)
        if a == "c":
            ops.append(dict(op="c", v=v, adv=adv * k))
        else:
            ops.append(dict(op="recv", h=a, i=i, v=dict(n=k, sec=k + 1, rt=k + 2), adv=0))
    return dict(n=n, freq=freq, ops=ops, stop=dict(on=False))


def with_stop(rng, c, k):
    n = c["n"]
    li = sum(1 for o in c["ops"] if o["op"] == "c")
    during = []
    for j, at in enumerate([60, 270]):
        if n > 1 and rng.random() < .6:
            during.append(dict(op="recv", h="r%d" % rng.randrange(1, n), i=max(1, li + rng.choice([-1, 0, 0, 0, 1, 1, 1, 2])),
                               v=dict(n=50 + j, sec=3, rt=4), at=at))
    c["stop"] = dict(on=True, u=rng.choice([0, 0, 7]), adv=rng.choice([0, 0, 36000]), timeout=420, during=during, tol=250)
    return c


def run(cases, mut=None):
    r = vlib.harness("collector", inp=json.dumps(cases), timeout=600)
    if r.returncode != 0:
        if "panic" in r.stderr or "fatal error" in r.stderr:
            return None, r.stderr[-3000:]
        raise vlib.Broken("collector harness: " + r.stderr[-2000:])
    return json.loads(r.stdout), ""


def check(cases):
    """indexes of cases that are not behaviours of Collector.tla"""
    return vlib.judge("CollectorTrace", cases, lambda cs: cs)
