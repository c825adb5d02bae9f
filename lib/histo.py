"""C16: statistics values, percentiles and reports against Histo.tla."""
import json, os, random, re
from decimal import Decimal, getcontext
import math
import vlib

SPECNAME = "Histo.tla"
getcontext().prec = 60
REAL = [Decimal(10) * Decimal(10) ** (Decimal(i) / 50) for i in range(450)]


def pair(us):
    us = int(us)
    return [us // 1000000, us % 1000000]


def ceil(x):
    r = int(x + Decimal("0.5"))
    return r if abs(x - r) < Decimal("1e-20") else math.ceil(x)     # whole powers of ten are exact


HI = [pair(ceil(x)) for x in REAL]
MID = [pair(0)] + [pair((int(REAL[i] + Decimal("1e-20")) + int(REAL[i - 1] + Decimal("1e-20"))) // 2) for i in range(1, 450)]
TIMES = {1: 7, 2: 150, 3: 151, 4: 1000000, 5: 9}


def histories(k, d):
    rc, out, st = vlib.tlc("HistoMC", cfgtext="SPECIFICATION Spec\nCONSTANTS K = %d\nD = %d\nCHECK_DEADLOCK FALSE\n" % (k, d), workers=4, heap="6g")
    if rc != 0:
        raise vlib.Broken("HistoMC: " + out[-2000:])
    hs = []
    for m in re.finditer(r'<<\s*"H",\s*<<(.*?)>>\s*>>\n', out, re.S):
        hs.append([(a, int(x), int(y), int(z)) for a, x, y, z in re.findall(r'<<"(\w+)", (\d+), (\d+), (\d+)>>', m.group(1))])
    return hs, st


def hist_case(h):
    ops = []
    for a, x, y, z in h:
        if a == "rec":
            ops.append(dict(op=a, x=x, t=y, d=TIMES[z], cnt=1, full=False))
        elif a == "err":
            ops.append(dict(op=a, x=x, code=1062, cnt=1, full=False))
        else:
            ops.append(dict(op=a, x=x, y=y, full=False))
    ops[-1]["full"] = True
    return dict(kind="ops", ops=ops)


def time_(rng):
    k = rng.random()
    if k < .25:
        i = rng.randrange(450)
        return max(0, int(REAL[i]) + rng.choice([-1, 0, 1, 2]))
    if k < .35:
        return rng.choice([0, 1, 9, 10, 11, 99, 100, 1000, 10 ** 6, 10 ** 9, 9549925860, 9549925861, 10 ** 11, 2 ** 31, 2 ** 32])
    return int(10 ** rng.uniform(0, rng.choice([3, 5, 7, 10])))


def pcts(rng):
    """(strings as configured, names, thousandths)"""
    pool = [("P50", 50000), ("p95", 95000), ("99", 99000), ("P99.9", 99900), ("P999", 99900), ("P9999", 99990), ("100", 100000), ("25", 25000),
            ("P1", 1000), ("P33.333", 33333), ("90", 90000), ("P75", 75000), ("P99.99", 99990), ("66.6", 66600), ("10", 10000), ("P45", 45000)]
    n = rng.choice([1, 1, 2, 3, 5, 8])
    c = [rng.choice(pool) for _ in range(n)]
    if rng.random() < .5:
        c.sort(key=lambda x: x[1])
    return ",".join((" " if rng.random() < .2 else "") + x[0] for x in c), ["P" + x[0].lstrip("Pp") for x in c], [x[1] for x in c]


def times(rng):
    """{time: count}"""
    n = rng.choice([1, 2, 3, 8, 15])
    big = rng.choice([1, 1, 3, 40, 300])
    return {time_(rng): rng.randrange(1, big + 1) for _ in range(n)}


def ops_case(rng):
    ops = []
    for _ in range(rng.choice([2, 4, 8])):
        a = rng.choice(["rec"] * 5 + ["err", "comb", "comb", "copy", "reset", "pct", "pct"])
        x = rng.choice([1, 2, 3])
        y = rng.choice([v for v in (1, 2, 3) if v != x])
        if a == "rec":
            for d, n in times(rng).items():
                ops.append(dict(op="rec", x=x, t=rng.choice([1, 2, 3, 4]), d=d, cnt=n, full=False))
        elif a == "err":
            ops.append(dict(op="err", x=x, code=rng.choice([1062, 1213, 1205, 3024]), cnt=1, full=False))
        elif a in ("comb", "copy", "reset"):
            ops.append(dict(op=a, x=x, y=y, full=True))
    for x in (1, 2, 3):
        _, _, p = pcts(rng)
        ops.append(dict(op="pct", x=x, t=rng.choice([1, 2, 3, 4, 4]), p=[v / 1000 for v in p], p1000=p, full=False))
    ops[-1]["full"] = True
    return dict(kind="ops", ops=ops)


def report_case(rng):
    kind = rng.choice(["csv", "stdout", "stdout"])
    s, names, ps = pcts(rng)
    if rng.random() < .15:
        s, names, ps = "", ["P999"], [99900]
    opts = {"percentiles": s}
    each = comb = None
    if kind == "stdout":
        m = rng.choice(["none", "both", "each", "comb"])
        if m == "both":
            each, comb = rng.choice([True, False]), rng.choice([True, False])
            opts["each-instance"], opts["combined"] = rng.choice(["yes", "true", "on"]) if each else rng.choice(["no", "false"]), "Yes" if comb else "off"
        elif m == "each":
            each, comb = True, False
            opts["each-instance"] = "true"
        elif m == "comb":
            each, comb = False, True
            opts["combined"] = "true"
        else:
            each = comb = True
    else:
        each, comb = False, True
    reports = []
    for k in range(rng.choice([1, 2, 3])):
        sec2, rt2 = rng.choice([1, 2, 3, 5, 10, 20, 7]), rng.choice([10, 20, 41])
        ins = []
        for j in range(rng.choice([1, 1, 2, 3])):
            ev = [[rng.choice([1, 1, 2, 3, 4]), d, n] for d, n in times(rng).items()] if rng.random() < .9 else []
            ins.append(dict(host="local" if j == 0 else "host%d-P" % j, clients=rng.randrange(1, 9), interval=k + 1, sec=sec2 / 2, rt=rt2 / 2, sec2=sec2, rt2=rt2,
                            ev=ev, er=rng.choice([[], [], [[1062, 2]], [[1213, 5], [1205, 1]]])))
        reports.append(dict(ins=ins))
    return dict(kind=kind, opts=opts, reports=reports, names=names, ps=ps, each=each, comb=comb)


class Unparsable(Exception):
    pass


def fields(line, kind):
    if kind == "csv":
        return line.split(",")
    return [f.strip().replace(",", "") for f in line.split("|")]


def parse(f, np):
    if len(f) != 18 + 4 * np:
        raise Unparsable("%d fields" % len(f))
    it = iter(f)

    def num():
        v = next(it)
        if not re.match(r"-?\d+$", v):
            raise Unparsable("not a number: " + v)
        return int(v)
    r = dict(interval=num())

    def half():
        v = next(it)
        if not re.match(r"\d+\.[05]$", v):
            raise Unparsable("not a duration: " + v)
        return int(2 * float(v))
    r["sec2"], r["rt2"], r["clients"] = half(), half(), num()
    q = [dict(qps=num(), min=pair(num()), p=[pair(num()) for _ in range(np)], max=pair(num())) for _ in range(4)]
    q = [q[1], q[2], q[3], q[0]]
    for k in ("qps", "min", "max", "p"):
        r[k] = [x[k] for x in q]
    r["errors"], r["host"] = num(), next(it)
    return r


def adapt(c):
    """what HistoTrace reads"""
    try:
        if c["kind"] == "ops":
            ops = []
            for o in c["ops"]:
                d = dict(op=o["op"], x=o["x"], y=o.get("y", 0), t=o.get("t", 0), d=pair(o.get("d", 0)), code=o.get("code", 0), cnt=o.get("cnt") or 1, full=o["full"],
                         p=o.get("p1000") or [], q=[pair(v) for v in (o.get("q") or [])],
                         obs=[dict(n=s["n"], min=[pair(v) for v in s["min"]], max=[pair(v) for v in s["max"]], b=s["b"], err=s["err"]) for s in o["obs"]])
                ops.append(d)
            return dict(kind="ops", panic=c["panic"], ops=ops)
        reports, headers = [], []
        if c["kind"] == "csv":
            headers.append(c["header"].strip("\n").split(","))
        for r in c["reports"]:
            lines = []
            for ln in r["out"].split("\n"):
                if not ln.strip():
                    continue
                f = fields(ln, c["kind"])
                if f[0] == "interval":
                    headers.append(f)
                else:
                    lines.append(parse(f, len(c["ps"])))
            reports.append(dict(lines=lines, ins=[dict(host=i["host"], clients=i["clients"], interval=i["interval"], sec2=int(2 * i["sec"]), rt2=int(2 * i["rt"]),
                                                       ev=[dict(t=e[0], d=pair(e[1]), n=e[2]) for e in i["ev"] or []], er=i["er"] or []) for i in r["ins"]]))
        return dict(kind=c["kind"], panic=c["panic"], reports=reports, headers=headers, names=c["names"], ps=c["ps"], each=c["each"], comb=c["comb"])
    except Unparsable as e:
        c["what"] = "unparsable line: %s" % e
        return dict(kind=c["kind"], panic=True)


def run(cases):
    r = vlib.harness("histo", inp=json.dumps(cases), timeout=600)
    if r.returncode != 0:
        if "panic" in r.stderr or "fatal error" in r.stderr:
            return None, r.stderr[-3000:]
        raise vlib.Broken("histo harness: " + r.stderr[-2000:])
    out = json.loads(r.stdout)
    for c, o in zip(cases, out):
        for k in ("names", "ps", "each", "comb"):
            if k in c:
                o[k] = c[k]
        for a, b in zip(c.get("ops", []), o.get("ops") or []):
            if "p1000" in a:
                b["p1000"] = a["p1000"]
    return out, ""


def check(cases):
    """indexes of cases that are not behaviours of Histo.tla"""
    return vlib.judge("HistoTrace", cases, lambda cs: dict(hi=HI, mid=MID, cases=[adapt(c) for c in cs]))
