"""Whole distributed runs: a real server and real clients -> DistTrace.tla, and
what each process did in them -> RunTrace.tla."""
import json, os, random, re
import vlib, scn, runtrace, fam
from scn import stmt, use, key, cg, stage, scenario

SPECNAME = "Dist.tla"


KINDS = {"C14": ["plain", "errors", "errors", "freq"], "C15": ["plain", "freq", "freq", "sigserver", "sigserver"],
         "C17": ["plain", "plain", "errors", "freq", "sigserver", "sigremote"],
         "C18": ["plain", "plain", "errors", "errors", "freq", "sigremote", "sigserver"]}
# events of the whole run that the property says something about
MINE = {"C14": {"report", "over"}, "C15": {"report", "over"}, "C17": {"begin", "stmt", "exit", "timeout"},
        "C18": {"over", "stmt", "exit", "timeout"}}


def gen(r, sid, pid="C18"):
    kind = r.choice(KINDS[pid])
    nrem = r.choice([1, 1, 2, 3])
    ns = 1 if kind.startswith("sig") else r.choice([1, 2, 2, 3])
    sts = []
    for k in range(ns):
        ks = {"s": key("statement", prm="p%d" % k), "c": key("client"), "w": key("workload"), "o": key("stage")}
        trx = []
        for j in range(r.choice([1, 2, 2, 3])):
            t = fam.mk_trx(r, n=r.randint(1, 3), prep=0.3, copies=0.1)
            for s in t:
                if s["w"] in fam.WRITES and r.random() < 0.6:
                    s["uses"] = [use(x) for x in r.sample(sorted(ks), r.randint(1, 2))]
            trx.append(("T%d" % (j + 1), t))
        ws = [cg(r.sample([t[0] for t in trx], r.randint(1, len(trx))), clients=r.randint(1, 3),
                 iter=r.choice([3, 10, 30]) if kind != "freq" else 60) for _ in range(r.choice([1, 1, 2]))]
        if kind.startswith("sig"):
            for c in ws:
                c["iter"] = 100000 if kind == "sigserver" else 90
        st = stage("ds%d" % (k + 1), trx, ws, ks, freq="1s" if kind == "freq" else "")
        st["remote"] = k == 0 or r.random() < 0.8
        st["nolocal"] = st["remote"] and r.random() < 0.25
        sts.append(st)
    rules = []
    if kind == "errors":
        rules = [dict(on="query", every=r.randint(5, 17), code=r.choice([1213, 1205, 1062]))]
    sc = scenario(sid, sts, rules=rules, jitter=(1000, 9000), seed=r.randint(1, 10 ** 6), timeout=40000)
    sc["show"] = [dict(groups=len(st["workload"]), clients=clients(st), remote=st["remote"], local=not st["nolocal"]) for st in sts]
    sc.update(kind=kind, nrem=nrem, after=[r.choice([0, 0, 300, 1500]) for _ in range(nrem)], sigat=r.randrange(300, 4500))
    return sc


def render(sc, d):
    out = scn.render(sc, d)
    for st in sc["stages"]:
        y = scn.stage_yaml(st)
        if st["remote"]:
            y["stage"]["compute"] = dict({"instances": str(sc["nrem"] + (0 if st["nolocal"] else 1))}, **({"disable-local": True} if st["nolocal"] else {}))
        out["files"]["s%d.yaml" % st["no"]] = json.dumps(y, indent=1)
    p = out["procs"][0]
    p["args"] = ["finch", "--server", "127.0.0.1:{{port1}}"] + ["s%d.yaml" % st["no"] for st in sc["stages"]]
    p["sigint"] = [sc["sigat"]] if sc["kind"] == "sigserver" else []
    n = sum(st["remote"] for st in sc["stages"])
    for k in range(sc["nrem"]):
        out["files"]["c%d/here" % (k + 1)] = ""
        q = dict(inst="r%d" % (k + 1), host="r%d" % (k + 1), cwd="c%d" % (k + 1), after=sc["after"][k], again=n - 1,
                 args=["finch", "--client", "127.0.0.1:{{port1}}"])
        if sc["kind"] == "sigremote" and k == 0:
            st = sc["stages"][0]
            q.update(sigon="%s %s 1" % (st["name"], st["workload"][0]["trx"][0]), sign=25)
        out["procs"].append(q)
    out.update(ports=1, maxev=60000, waitfor="local" if sc["kind"] == "sigserver" else "")
    return out


def clients(st):
    return sum(max(1, c["clients"]) for c in st["workload"])


def owner(ev):
    """connection -> process, known from its statements"""
    own = {}
    for e in ev:
        if e["e"] == "q" and e.get("kind") == "stmt" and "|" in e.get("rc", ""):
            own.setdefault(e["c"], e["rc"].strip("'").split("|")[0])
    return own


def hn(inst):
    h, _, n = inst.partition("_")
    return h, int(n or 1)


def noisol(ev):
    return any(e["e"] == "exit" and e["code"] == -99 for e in ev)


def adapt(sc, ev):
    """the run as a whole"""
    names = {st["name"]: st["no"] for st in sc["stages"]}
    own, cur, out = owner(ev), {}, []
    for e in ev:
        t, k, o = e["t"] // 1000, e["e"], None
        if k == "start":
            h, n = hn(e["inst"])
            o = dict(e="start", h=h, n=n)
        elif k == "mkrep":
            o = dict(e="begin", st=names.get(e["opts"].get("stage", ""), 0))
        elif k == "q":
            cur[e["c"]] = e if e.get("kind") == "stmt" else None
            if e.get("kind") == "stmt":
                h, n = hn(own.get(e["c"], "?"))
                o = dict(e="stmt", h=h, n=n, st=names.get(e["stage"], 0), trx=e["trx"],
                         w=e["text"].lstrip("( \n").split(None, 1)[0].upper())
        elif k == "r":
            q = cur.get(e["c"])
            if q is not None:
                h, n = hn(own.get(e["c"], "?"))
                if e.get("code") and not e.get("drop"):
                    o = dict(e="err", h=h, code=e["code"])
        elif k == "report":
            o = dict(e="report", **{"from": [dict(host=x["host"], interval=x["interval"], clients=x["clients"], trx=x["trx"], errs=x["errs"])
                                             for x in (runtrace._inst(y) for y in e["from"] or [])]})
        elif k == "repstop":
            o = dict(e="over")
        elif k == "sigint":
            o = dict(e="sig", h=hn(e["inst"])[0])
        elif k == "timeout":
            o = dict(e="timeout")
        elif k == "exit":
            h, n = hn(e["inst"])
            if not e.get("killed"):
                o = dict(e="exit", h=h, n=n, code=e["code"])
        if o is not None:
            o["t"] = t
            out.append(o)
            if k == "timeout" or k == "exit" and o["h"] == "local" and sc["kind"] == "sigserver":
                break
    return out


def describe(sc):
    out = []
    for st in sc["stages"]:
        hosts = ["r%d" % (k + 1) for k in range(sc["nrem"])] if st["remote"] else []
        out.append(dict(hosts=hosts + ([] if st["nolocal"] else ["local"]), remote=st["remote"], clients=clients(st), exact=not st["freq"]))
    return out


def parts(sc, ev):
    """(scenario, events) of each process"""
    own = owner(ev)
    rem = [st for st in sc["stages"] if st["remote"]]
    sigt = min([e["t"] for e in ev if e["e"] == "sigint" and e["inst"] == "local"], default=None)
    out = []
    for inst in [e["inst"] for e in ev if e["e"] == "start"]:
        h, n = hn(inst)
        sts = [st for st in sc["stages"] if not st["nolocal"]] if h == "local" else rem[n - 1:n]
        if not sts:
            continue
        sub = dict(sc, id=sc["id"] + ":" + inst, stages=[dict(st, stats=False) for st in sts])
        es = []
        for e in ev:
            if e["e"] in ("mkrep", "report", "repstop", "start"):
                continue
            if "c" in e and own.get(e["c"]) != inst or "inst" in e and e["inst"] != inst:
                continue
            if h != "local" and sigt is not None and e["t"] >= sigt:
                break
            es.append(e)
            if e["e"] == "exit":
                break
        if h != "local" and sigt is not None and not es:
            continue
        if any(e["e"] == "q" for e in es):
            out.append((sub, es))
    return out


def timing(x):
    """does the verdict depend on measured time?"""
    e = x["event"] or {}
    return e.get("e") in ("over", "exit", "timeout", None) and not (e.get("labels") and not set(e["labels"]) & runtrace.TIMING)


def check(items, pid="C18", timeout=800):
    traces = [dict(d=describe(sc), ev=[] if noisol(ev) else adapt(sc, ev)) for sc, ev in items]
    f = os.path.join(vlib.tmpdir(), "dt%s.json" % os.urandom(6).hex())
    json.dump(dict(traces=traces), open(f, "w"))
    out, st = vlib.tlc_ok("DistTrace", env=dict(VERIF_IN=f), timeout=timeout,
                          cfgtext="SPECIFICATION Spec\nVIEW View\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n")
    res = [dict(ok=not t["ev"], at=0, event=None) for t in traces]
    for m in re.finditer(r'<<"(ACCEPTED|AT)", (\d+), (\d+)>>', out):
        r = res[int(m.group(2)) - 1]
        r["at"] = max(r["at"], int(m.group(3)))
        if m.group(1) == "ACCEPTED":
            r["ok"] = True
    sub, ix = [], []
    for i, r in enumerate(res):
        tr = traces[i]["ev"]
        if not r["ok"]:
            r["event"] = tr[r["at"]] if r["at"] < len(tr) else dict(e="end")
            r["ok"] = r["event"]["e"] not in MINE[pid] | {"end"}
        elif tr and pid == "C18":
            for p in parts(*items[i]):
                sub.append(p)
                ix.append(i)
    rr, st2 = runtrace.check(sub)
    for i, p, x in zip(ix, sub, rr):
        if x["ok"]:
            continue
        # what the server's own instance does wrong too isn't for want of the server's configuration
        if any(j == i and not y["ok"] and q[0]["id"].endswith(":local") for j, q, y in zip(ix, sub, rr)):
            continue
        if res[i]["ok"]:
            res[i].update(ok=False, at=x["at"], event=dict(process=p[0]["id"], labels=x["labels"], event=x.get("event")))
    for k in st:
        st[k] = st[k] + st2.get(k, 0)
    return res, st


def mc_cfg(rem, ns, k, loss, local, fault="none", live=True):
    return ("SPECIFICATION Spec\nCONSTANTS Rem = {%s}\nNS = %d\nK = %d\nMaxLoss = %d\nLocal = %s\nFault = \"%s\"\n"
            "INVARIANTS Kept Inv\nCHECK_DEADLOCK FALSE\n%s") % (
        ", ".join('"r%d"' % (i + 1) for i in range(rem)), ns, k, loss, "TRUE" if local else "FALSE", fault, "PROPERTY Ends\n" if live else "")


MC = [("2 clients, 2 stages", (2, 2, 1, 2, True)), ("2 clients, 2 stages, server not executing", (2, 2, 1, 2, False))]
MC_TH = [("2 clients, 3 stages, 4 losses", (2, 3, 2, 4, True)), ("3 clients, 2 stages", (3, 2, 1, 2, True)),
         ("3 clients, 2 stages, server not executing", (3, 2, 1, 3, False))]
# designs that are wrong, and whether the server executes the workload
MC_BAD = [("dupack", True), ("dupack", False), ("dupstats", True), ("dupstats", False), ("nobarrier", True), ("nobarrier", False),
          ("nowait", True), ("noresend", False), ("late", False)]


class For:
    """the part for one property"""
    SPECNAME = SPECNAME

    def __init__(self, pid):
        self.pid = pid

    def gen(self, r, sid):
        return gen(r, sid, self.pid)

    def render(self, sc, d):
        return render(sc, d)

    def check(self, items):
        return check(items, self.pid)
