"""Recorded executions -> RunTrace.tla."""
import json, os, re
import vlib, scn

TOL, STOPTOL = 600, 6500

# labels of conditions that depend on measured time
TIMING = {"time", "norep", "idle", "rtime", "hang", "lim", "cerr", "stats", "conc", "slow"}


def _ms(t):
    return t // 1000


def _val(k, raw):
    p = raw.split("#")
    if len(p) == 5 and p[1].isdigit() and p[2].isdigit() and p[3].isdigit():
        return dict(k=k, k2=p[0], cp=int(p[1]), n=int(p[2]), ix=int(p[3]), prm=p[4], raw=raw)
    return dict(k=k, k2="", cp=0, n=0, ix=0, prm="", raw="nil" if raw in ("<nil>", "NULL", "'<nil>'") else raw)


def adapt(sc, events):
    """list of event records for the specification"""
    names = {st["name"]: k + 1 for k, st in enumerate(sc["stages"])}
    out = []
    kind = {}
    lastrel = {}     # conn -> time of last event, us
    end = events[-1]["t"] if events else 0
    # next event time on the same connection after index
    nxt = {}
    nextt = [end] * len(events)
    for i in range(len(events) - 1, -1, -1):
        c = events[i].get("c")
        if c is not None and events[i]["e"] in ("q", "r", "close", "prep", "unprep", "ping"):
            nextt[i] = nxt.get(c, end)
            if events[i].get("drop"):    # the client notices after the server
                nextt[i] = max(nextt[i], events[i]["t"] + 300000)
            nxt[c] = events[i]["t"]
    for i, e in enumerate(events):
        t = _ms(e["t"])
        k = e["e"]
        o = None
        if k == "open":
            o = dict(e="open", c=e["c"], db=e["db"])
        elif k == "q":
            kd = e["kind"]
            kind[e["c"]] = (kd, e["t"], lastrel.get(e["c"], 0))
            o = dict(e="q", c=e["c"], kind=kd)
            if kd == "stmt":
                rc = e.get("rc", "")
                m = re.match(r"^'?(\w+)\|(\d+),(\d+),(\d+),(\d+),(\d+),(\d+),(\d+),(\d+)'?$", rc)
                g = [int(x) for x in m.groups()[1:]] if m else [0] * 8
                o.update(st=names.get(e["stage"], 0), sno=g[7], eg=g[6], cl=[g[5], g[4]], trx=e["trx"],
                         sid=str(e["stmt"]), ps=e["ps"], db=e["db"], rs=g[0], rt=g[1], ri=g[2], rcn=g[3],
                         vals=[_val(a, b) for a, b in e["uses"]])
        elif k == "r":
            kd, tq, tp = kind.get(e["c"], ("other", e["t"], e["t"]))
            o = dict(e="r", c=e["c"], kind=kd, code=e.get("code", 0), drop=bool(e.get("drop")), aff=e.get("aff", 0),
                     iid=str(e.get("iid", 0)), nrows=e.get("nrows", 0), row=e.get("row") or [],
                     us=e["t"], qus=tq, nus=nextt[i], pus=tp, szq="tots" in e, tots=e.get("tots") or [])
        elif k == "prep":
            o = dict(e="prep", c=e["c"], trx=e.get("trx", "?"), sid=str(e.get("stmt", "?")), code=e["code"], drop=e["drop"])
        elif k == "unprep":
            o = dict(e="unprep", c=e["c"], trx=e["trx"], sid=str(e["stmt"]))
        elif k == "held":
            o = dict(e="held", ok=e["ok"])
        elif k == "mkrep":
            o = dict(e="mkrep", st=names.get(e["opts"].get("stage", ""), 0))
        elif k == "report":
            o = dict(e="report", **{"from": [_inst(x) for x in e["from"] or []]})
        elif k == "repstop":
            o = dict(e="repstop")
        elif k == "sigint":
            o = dict(e="sigint")
        elif k == "timeout":
            o = dict(e="timeout")
        elif k == "exit":
            log = e.get("log", "")
            cerr = bool(re.search(r"(?m)^\s+.*: (?:.*context (?:deadline exceeded|canceled)).*\(.*\)\s*$", log)) and "client errors" in log
            o = dict(e="exit", code=e["code"], cerr=cerr, panic="panic:" in log or "PANIC" in log)
        if "c" in e and k in ("open", "q", "r", "prep", "unprep", "ping"):
            lastrel[e["c"]] = e["t"]
        if o is not None:
            o["t"] = t
            out.append(o)
            if k in ("timeout", "exit"):
                break
    return out


def _n(s):
    r, w, c, t = s["n"]
    return dict(read=r, write=w, commit=c, other=t - r - w - c)


def _inst(x):
    tot = x.get("total") or dict(n=[0, 0, 0, 0], min=[0] * 4, max=[0] * 4, errs=[], bsum=[0] * 4)
    trx = [dict(name=k, n=_n(v)) for k, v in sorted((x.get("trx") or {}).items())]
    return dict(host=x["host"], clients=x["clients"], interval=x["interval"], n=_n(tot), trx=trx,
                errs=[[int(a), int(b)] for a, b in tot["errs"]], bsumOk=list(tot["bsum"]) == list(tot["n"]),
                min=min(tot["min"][3], 2 ** 31 - 1), max=min(tot["max"][3], 2 ** 31 - 1))


# labels of conditions on which the specification's state doesn't depend
PURE = {"err-rc", "err-db", "sc1", "sc2", "sc3", "scx", "save", "text", "rc", "rate", "slow", "stats", "rtime", "idle", "db", "cerr"}


def check(items, labels=None, timeout=800):
    """items: list of (scenario, events).  Returns list of results
    dict(ok, labels, at, event) and TLC statistics."""
    if not items:
        return [], dict(generated=0, distinct=0)
    traces = [adapt(sc, ev) for sc, ev in items]
    inp = dict(cfgs=[scn.cfg(sc) for sc, _ in items], traces=traces, tol=TOL, stoptol=STOPTOL,
               waive=sorted(PURE - set(labels)) if labels else [])
    f = os.path.join(vlib.tmpdir(), "rt%d.json" % abs(hash(items[0][0]["id"] + str(len(items)) + os.urandom(4).hex())))
    json.dump(inp, open(f, "w"))
    rc, out, st = vlib.tlc("RunTrace", env=dict(VERIF_IN=f), timeout=timeout)
    res = [dict(ok=False, labels=[], at=0) for _ in items]
    for m in re.finditer(r'<<"(ACCEPTED|BLAME)", (\d+), (\d+)(?:, "([^"]*)")?>>', out):
        r = res[int(m.group(2)) - 1]
        if m.group(1) == "ACCEPTED":
            r["ok"] = True
        else:
            at = int(m.group(3))
            if at > r["at"]:
                r["at"], r["labels"] = at, []
            r["labels"].append(m.group(4))
    if rc != 0:
        pass
        raise vlib.Broken("TLC failed on RunTrace (rc %d):\n%s\n%s" % (rc, "\n".join(l for l in out.splitlines() if "rror" in l)[:1500], out[-3000:]))
    for i, r in enumerate(res):
        if not r["ok"] and not r["labels"]:
            raise vlib.Broken("no verdict for trace %s" % items[i][0]["id"])
        if r["ok"]:
            r["labels"] = []
        else:
            r["event"] = traces[i][r["at"] - 1]
    return res, st
