"""Real remote instances (finch --client) against a scripted server -> RemoteTrace.tla."""
import json, os, random, re
import vlib

SPECNAME = "Remote.tla"
TOL = 2500


def names(sc):
    return [("a/t.sql" if i == 0 else "b/t.sql" if i == 1 else "t%d.sql" % i) if sc["same"] else "t%d.sql" % i for i in range(sc["files"])]


def content(sc, i):
    return "\n".join("SELECT /*V st1 t%d %d @zrc*/ 1\n" % (i, k + 1) for k in range(sc["stmts"][i])) + \
        ("\n-- nonsense: 1\nSELECT 1\n" if not sc["boots"] and i == sc["files"] - 1 else "")


def render(sc, d):
    nm = names(sc)
    trx = [{"name": "t%d" % i, "file": nm[i], "data": {"zrc": {"generator": "verif-rc", "scope": "value"}}} for i in range(sc["files"])]
    y = dict(name="st1", trx=trx, mysql={"dsn": "root:@tcp({{addr}})/d"}, compute={"instances": "2"},
             workload=[dict(clients=str(sc["clients"]), iter=str(sc["iter"]), trx=[t["name"] for t in trx])])
    if sc["freq"]:
        y["stats"] = {"freq": sc["freq"]}
    files = {"srv/s1.yaml": json.dumps({"stage": y}, indent=1), "cli/here": ""}
    for i in range(sc["files"]):
        files["srv/" + nm[i]] = content(sc, i)
        if i in sc["local"]:
            files["cli/" + nm[i]] = content(sc, i)
    return dict(id=sc["id"], dir=d, files=files, timeout=sc["timeout"], maxev=60000,
                mysql=dict(rules=[], seed=sc["seed"], jitter=sc["jitter"]),
                http=dict(stage="s1.yaml", id=sc["sid"], faults=sc["faults"], bootwait=sc["bootwait"], runwait=sc["runwait"],
                          reset=sc["reset"], stopat=sc["stopat"], lostat=sc["lostat"]),
                procs=[dict(inst="remote", cwd="cli", args=["finch", "--client", "127.0.0.1:{{hport}}"], sigint=sc["sigint"])])


def gen(rng, sid):
    nf = rng.choice([1, 2, 2, 3, 4])
    kind = rng.choice(["plain", "faults", "faults", "faults", "bad", "bad", "reset", "stop", "stop", "lost", "sigint", "giveup"])
    sc = dict(id=sid, kind=kind, files=nf, same=nf > 1 and rng.random() < .5, stmts=[rng.choice([1, 1, 2, 3]) for _ in range(nf)],
              clients=rng.choice([1, 2, 3]), iter=rng.choice([1, 5, 20, 60]), freq=rng.choice(["", "", "1s", "500ms"]),
              local=[i for i in range(nf) if rng.random() < .15], boots=kind != "bad", sid="%08x-%x" % (rng.randrange(1 << 32), rng.randrange(1 << 16)),
              faults=[], bootwait=rng.choice([0, 0, 30, 200]), runwait=rng.choice([0, 0, 50, 400]), reset=kind == "reset",
              stopat=0, lostat=0, sigint=[], timeout=30000, seed=rng.randrange(1 << 30), jitter=[1500, 9000], stage=None)
    if sc["local"] and not sc["boots"]:
        sc["local"] = []
    if rng.random() < .4:
        sc["iter"] = 150 + rng.randrange(100)

    def fault(ep, nth, act=None):
        a = act or rng.choice(["drop", "half", "500", "500", "cut"])
        if a == "cut" and ep not in ("boot", "file"):
            a = "half"
        sc["faults"].append(dict(ep=ep, nth=nth, act=a))
    if kind in ("faults", "bad", "stop"):
        for ep, mx in (("boot", 3), ("file", 2), ("ack", 4 if sc["boots"] else 2), ("run", 2), ("ping", 4), ("stats", 2), ("done", 2)):
            if rng.random() < .5:
                a = rng.choice([1, 1, 2])
                fault(ep, list(range(a, a + rng.randrange(1, mx + 1))))
        # no request may use up its tries: files and stats are numbered over all requests
        if rng.random() < .12:
            fault(rng.choice(["ack", "stats", "done", "boot"]), [1], "slow")
    if kind == "giveup":
        ep = rng.choice(["file", "ack", "run", "done", "stats", "bad"])
        if ep == "bad":
            sc["boots"], sc["local"], ep = False, [], "ack"
        fault(ep, list(range(1, 12)), rng.choice(["drop", "500", "half"]))
        if ep == "stats":
            sc["faults"][-1]["nth"] = [1, 2, 3]
    if kind in ("stop", "lost", "sigint"):
        sc["iter"] = 100000
        if kind == "stop":
            sc["stopat"] = rng.randrange(200, 3000)
        if kind == "lost":
            sc["lostat"] = rng.randrange(200, 2000)
        if kind == "sigint":
            sc["sigint"] = [rng.choice([rng.randrange(50, 600), rng.randrange(600, 2500)])]
            sc["bootwait"] = rng.choice([0, 300])
            sc["runwait"] = rng.choice([0, 800])
    return sc


def adapt(sc, ev):
    out, ntry, flast = [], 0, None
    for e in ev:
        t, k = e["t"] // 1000, e["e"]
        if k == "hreq":
            d = dict(e="req", t=t, ep=e["ep"], name=e["name"], sid=e["sid"], code=e["code"], body=e.get("body", ""), ri=e.get("ri", -1),
                     hash=e["hash"], interval=e.get("interval", 0), host=e.get("host", ""), bad=e.get("bad", False), n=0)
            if e["ep"] == "run" and e["act"] == "":
                d["code"] = 0
            if e["ep"] == "stats" and e.get("total"):
                d["n"] = e["total"]["n"][3]
            out.append(d)
        elif k == "hrun":
            out.append(dict(e="run", t=t, code=e["code"]))
        elif k == "q" and e.get("kind") == "stmt":
            out.append(dict(e="stmt", t=t, trx=int(e["trx"][1:]) + 1))
        elif k == "sigint":
            out.append(dict(e="sigint", t=t))
        elif k == "timeout":
            out.append(dict(e="timeout", t=t))
            break
        elif k == "exit":
            out.append(dict(e="exit", t=t, code=e["code"]))
            break
    return out


def check(items, timeout=800):
    traces = []
    for sc, ev in items:
        traces.append(dict(ev=adapt(sc, ev), c=dict(id=sc["sid"], files=sc["files"], local=sc["local"], boots=sc["boots"], stopat=sc["stopat"],
                                                    lostat=sc["lostat"], clients=sc["clients"],
                                                    want=[sc["stmts"][i] * sc["clients"] * sc["iter"] for i in range(sc["files"])])))
    f = os.path.join(vlib.tmpdir(), "rt%s.json" % os.urandom(6).hex())
    json.dump(dict(traces=traces, tol=TOL), open(f, "w"))
    out, st = vlib.tlc_ok("RemoteTrace", env=dict(VERIF_IN=f), timeout=timeout, cfgtext="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
    res = [dict(ok=False, at=0) for _ in items]
    for m in re.finditer(r'<<"(ACCEPTED|AT)", (\d+), (\d+)>>', out):
        r = res[int(m.group(2)) - 1]
        r["at"] = max(r["at"], int(m.group(3)))
        if m.group(1) == "ACCEPTED":
            r["ok"] = True
    for i, r in enumerate(res):
        tr = traces[i]["ev"]
        r["event"] = tr[r["at"]] if r["at"] < len(tr) else None
    return res, st
