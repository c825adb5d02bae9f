"""C11: built-in data generators against Gen.tla."""
import json, os, random, re
import vlib

SPECNAME = "Gen.tla"
NUM = {"int": ["min", "max", "mean"], "int-gaps": ["min", "max"], "int-range": ["min", "max"], "int-range-seq": ["begin", "end"], "auto-inc": ["start"],
       "str-fill-az": [], "xid": [], "client-id": []}
IDS = ["statement", "trx", "iter", "conn", "client", "client-group", "exec-group"]
OUT = -10 ** 9


def histories(k, m):
    rc, out, st = vlib.tlc("GenMC", cfgtext="SPECIFICATION Spec\nCONSTANTS K = %d\nM = %d\nCHECK_DEADLOCK FALSE\n" % (k, m), workers=4)
    if rc != 0:
        raise vlib.Broken("GenMC: " + out[-2000:])
    return [[int(x) for x in m.split(",")] for m in re.findall(r'<<\s*"H",\s*<<([\d, \n]*)>>\s*>>', out)], st


def case(name, p, mode, off=0, big=False, garbage=None, **kw):
    """p: params relative to off (integers), or text"""
    params = {}
    for k, v in p.items():
        if k == "ids":
            params["ids"] = ",".join(v)
        elif k in NUM[name] and not big:
            params[k] = str(v + off)
        else:
            params[k] = str(v)
    if garbage:
        params.update(garbage)
    c = dict(name=name, params=params, mode=mode, off=off, big=big, garbage=bool(garbage), p=dict(p, _=0), **kw)
    if name == "int" and str(p.get("dist", "")).lower() == "normal":
        c["p"]["normal"] = True
        w = p.get("max", 100000) - p.get("min", 1)
        mean = p.get("mean", None)
        c["p"]["free"] = "stddev" in p or (mean is not None and not (p.get("min", 1) + w // 3 <= mean <= p.get("max", 100000) - w // 3))
    for k in ("dist", "stddev"):
        c["p"].pop(k, None)
    if name == "client-id" and not p:
        c["p"]["ids"] = ["client"]
    return c


def rc(rng):
    return [rng.randrange(1, 1000) for _ in range(8)]


def seq_ops(rng, n, m=3):
    ops = [dict(copy=True)]
    k = 1
    while len(ops) < n:
        if k < m and rng.random() < .2:
            ops.append(dict(copy=True))
            k += 1
        else:
            ops.append(dict(x=rng.randrange(k), rc=rc(rng)))
    return ops


def hist_ops(h, rng):
    return [dict(copy=True) if x == 0 else dict(x=x - 1, rc=rc(rng)) for x in h]


def config(rng, name, small=False):
    """(params, off) mostly valid"""
    off = 0
    if name in ("int", "int-range", "int-range-seq", "int-gaps") and rng.random() < .6:
        off = rng.choice([0, 0, 7, 99, 1000, 10 ** 9, 10 ** 12] + ([-50, -10 ** 6, 2 ** 60] if name in ("int-range", "int-range-seq") else []))
    if name == "auto-inc" and rng.random() < .4:
        off = rng.choice([5, 10 ** 9, 2 ** 62, 2 ** 64 - 1000])
    w = rng.choice([1, 1, 2, 3, 5, 9, 30, 99, 100, 200] + ([] if small else [1000, 20000]))
    lo = rng.choice([0, 1, 1, 1, 2, 10])
    p = {}
    if name == "int":
        if off or small or rng.random() < .8:
            p = dict(min=lo, max=lo + w - rng.choice([0, 1]))
            if not off and lo == 1 and rng.random() < .4:
                del p["min"]
        elif rng.random() < .5:
            p = dict(max=rng.choice([1, 2, 10]))
        r = rng.random()
        if r < .35:
            p["dist"] = rng.choice(["normal", "Normal"])
            if rng.random() < .4:
                p["mean"] = rng.choice([lo + w // 2, lo + 5 * w + 7, lo + 1, max(1, lo)])
                if p["mean"] + off == 0:
                    del p["mean"]
            if rng.random() < .3:
                p["stddev"] = rng.choice(["0.5", "1", "10", str(w), "1000000", "0"])
        elif r < .5:
            p["dist"] = "uniform"
    elif name == "int-gaps":
        if off or small or rng.random() < .8:
            p = dict(min=lo, max=lo + w)
            if not off and lo == 1 and rng.random() < .4:
                del p["min"]
        if rng.random() < .8:
            p["p"] = rng.choice([1, 1, 2, 5, 10, 20, 33, 50, 99, 100]) if "max" in p else rng.choice([1, 5, 20])
        if "max" not in p:
            p.pop("min", None)
    elif name == "int-range":
        if off or small or rng.random() < .8:
            p = dict(min=lo, max=lo + w, size=rng.randrange(1, w + 1))
            if not off and lo == 1 and rng.random() < .4:
                del p["min"]
        elif rng.random() < .5:
            p["size"] = rng.choice([1, 2, 1000, 50000])
    elif name == "int-range-seq":
        if off or small or rng.random() < .8:
            p = dict(begin=lo, end=lo + w, size=rng.choice([1, w, rng.randrange(1, w + 1), rng.randrange(1, w + 1)]))
            if not off and lo == 1 and rng.random() < .4:
                del p["begin"]
        elif rng.random() < .5:
            p["size"] = rng.choice([1, 7, 1000, 50000, 99999])
    elif name == "auto-inc":
        if off or rng.random() < .5:
            p["start"] = rng.choice([0, 1, 10, 500])
        if rng.random() < .6:
            p["step"] = rng.choice([1, 2, 5, 1000])
    elif name == "str-fill-az":
        if rng.random() < .9:
            p["len"] = rng.choice([1, 2, 3, 9, 10, 11, 20, 25, 64, 100])
    elif name == "client-id":
        if rng.random() < .8:
            p["ids"] = [rng.choice(IDS) for _ in range(rng.randrange(1, 6))]
    return p, off


def seq_case(rng):
    name = rng.choice(list(NUM))
    p, off = config(rng, name)
    return case(name, p, "seq", off, ops=seq_ops(rng, rng.choice([3, 10, 40, 120])))


def conc_case(rng):
    name = rng.choice(["int", "int-gaps", "int-range", "int-range-seq", "int-range-seq", "auto-inc", "auto-inc", "str-fill-az", "str-fill-az", "xid"])
    p, off = config(rng, name, small=rng.random() < .6)
    n = 100 if name == "str-fill-az" else rng.choice([50, 200])
    if name == "str-fill-az":
        p["len"] = rng.choice([20, 25])
    if name == "int-range-seq" and p.get("size") and (p.get("end", 100000) - p.get("begin", 1)) // p["size"] > 30:
        n = 50
    return case(name, p, "conc", off, copies=rng.choice([1, 1, 1, 2, 3]), callers=rng.choice([2, 4, 8]), n=n)


def dist_case(rng):
    name = rng.choice(["int", "int", "int", "int-gaps", "int-range"])
    while True:
        p, off = config(rng, name, small=True)
        if p.get("max", 10 ** 6) <= 110 and p.get("max", 10 ** 6) >= p.get("min", 1):
            break
    return case(name, p, "dist", off, n=400 * (p["max"] - p.get("min", 1) + 1))


def letters_case(rng):
    return case("str-fill-az", {"len": rng.choice([1, 7, 10, 11, 64])}, "dist", n=52 * 400)


def refused_case(rng):
    name, p = rng.choice([
        ("int-gaps", dict(min=10, max=5)), ("int-gaps", dict(p=0)), ("int-gaps", dict(p=101)), ("int-gaps", dict(p=-5)), ("int-gaps", dict(max=0)),
        ("int-range", dict(min=5, max=5)), ("int-range", dict(min=500000)), ("int-range", dict(min=9, max=3, size=1)),
        ("int-range-seq", dict(begin=10, end=9, size=1)), ("int-range-seq", dict(begin=200000)),
        ("str-fill-az", dict(len=0)), ("str-fill-az", dict(len=-1)), ("client-id", dict(ids=["client", "clients"])), ("client-id", dict(ids=["stage"])),
        ("client-id", dict(ids=["x"]))])
    return case(name, p, "seq", ops=seq_ops(rng, 4))


def garbage_case(rng):
    name = rng.choice(["int", "int-gaps", "int-range", "int-range-seq", "auto-inc", "str-fill-az"])
    k = rng.choice(dict({"int": ["min", "max"], "int-gaps": ["min", "max", "p"], "int-range": ["min", "max", "size"], "int-range-seq": ["begin", "end", "size"],
                         "auto-inc": ["start", "step"], "str-fill-az": ["len"]})[name])
    return case(name, {}, "seq", ops=seq_ops(rng, 4), garbage={k: rng.choice(["x", "", "1k", "1.5", "0x10", "10 ", "99999999999999999999", "one"])})


def tri(x):
    return [x >> 48, (x >> 24) & 0xffffff, x & 0xffffff] if x >= 0 else [-1, 0, 0]


def big_case(rng):
    hi = rng.choice([2 ** 63 - 1, 2 ** 63 - 2, 2 ** 62, 2 ** 40, 2 ** 33])
    lo = rng.choice([0, 1, 2 ** 32, hi - 1, hi])
    p = dict(min=min(lo, hi), max=hi)
    c = case("int", p, "seq", big=True, ops=seq_ops(rng, 30))
    c["p"]["min"], c["p"]["max"] = tri(p["min"]), tri(hi)
    return c


def adapt(c):
    """what GenTrace reads"""
    def num(x, name):
        if c["big"]:
            return tri(x)
        if name == "auto-inc":
            y = (x - c["off"]) % 2 ** 64
        elif name == "client-id":
            y = x
        else:
            y = x - c["off"]
        return y if -10 ** 9 < y < 10 ** 9 else OUT

    def vals(v):
        r = []
        for x in v or []:
            if isinstance(x, str):
                r.append([ord(ch) for ch in x] if c["name"] in ("str-fill-az", "xid") else [-1])
            elif isinstance(x, (int, float)):
                r.append(num(int(x), c["name"]))
            else:
                r.append(OUT)
        return r

    def ops(l):
        return [dict(copy=bool(o.get("copy")), x=o.get("x", 0), rc=o.get("rc") or [0] * 8, v=vals(o.get("v"))) for o in l or []]
    d = dict(name=c["name"], p=c["p"], big=c["big"], garbage=c["garbage"], mode=c["mode"], err=bool(c["err"]), panic=bool(c["panic"]), nfmt=c["nfmt"],
             copies=c["copies"], n=c["n"], ops=ops(c.get("ops")), conc=[ops(l) for l in c.get("conc") or []],
             count=[[json.loads(k)[0] if k.startswith("[[") else vals(json.loads(k)), n] for k, n in sorted((c.get("count") or {}).items())])
    return d


def run(cases):
    r = vlib.harness("gen", inp=json.dumps(cases), timeout=600)
    if r.returncode != 0:
        if "panic" in r.stderr or "fatal error" in r.stderr:
            return None, r.stderr[-3000:]
        raise vlib.Broken("gen harness: " + r.stderr[-2000:])
    out = json.loads(r.stdout)
    for c, o in zip(cases, out):
        for k in ("p", "off", "big", "garbage"):
            o[k] = c[k]
    return out, ""


def check(cases):
    """indexes of cases that are not behaviours of Gen.tla"""
    return vlib.judge("GenTrace", cases, lambda cs: [adapt(c) for c in cs])
