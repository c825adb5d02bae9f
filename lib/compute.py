"""Client/server mode: scripted remotes against the real server -> ComputeTrace.tla."""
import json, os, random, re
import vlib

SPECNAME = "Compute.tla"


def mc_cfg(stg, mr, mp, test, sig, names='"a", "b"'):
    return """SPECIFICATION Spec
CONSTANTS Names = {%s}
MaxReq = %d
MaxPend = %d
MCTest = %s
WithSig = %s
MCStages <- %s
VIEW Canon
CHECK_DEADLOCK FALSE
INVARIANTS AtMostN AllBooted AckExact MovesOn FinOk
""" % (names, mr, mp, test, sig, stg)


SLACK, STOPWAIT, EXITWAIT = 900, 2000, 7300


def stage_files(sc):
    files = {}
    for k, st in enumerate(sc["stages"], 1):
        trx = [{"name": "t%d" % i, "file": "st%d-t%d.sql" % (k, i)} for i in range(st["files"])]
        for i in range(st["files"]):
            files["st%d-t%d.sql" % (k, i)] = "SELECT /*V st%d t%d 1 @zrc*/ 1\n" % (k, i)
        for t in trx:
            t["data"] = {"zrc": {"generator": "verif-rc", "scope": "value"}}
        y = dict(name="st%d" % k, trx=trx, workload=[dict(clients=str(st["clients"]), iter=str(st["iter"]), trx=[t["name"] for t in trx])],
                 compute={"instances": str(st["n"])}, mysql={"dsn": "root:@tcp({{addr}})/d"},
                 stats={"report": {"verif": {"stage": "st%d" % k}}})
        if not st["local"]:
            y["compute"]["disable-local"] = True
        if st.get("freq"):
            y["stats"]["freq"] = st["freq"]
        files["s%d.yaml" % k] = json.dumps({"stage": y}, indent=1)
    return files


def S(op, **kw):
    d = dict(op=op, timeout=8000, retry=0, wait=40, pre=0)
    d.update(kw)
    return d


def render(sc, d):
    args = ["finch", "--server", "127.0.0.1:{{port1}}"] + (["--test"] if sc["test"] else []) + ["s%d.yaml" % (k + 1) for k in range(len(sc["stages"]))]
    return dict(id=sc["id"], dir=d, files=stage_files(sc), timeout=sc["timeout"], maxev=60000, ports=1,
                mysql=dict(rules=[], seed=sc["seed"], jitter=[2000, 12000]), remotes=sc["remotes"],
                procs=[dict(inst="local", args=args, sigint=sc["sigint"])])


def segment(rng, nfiles, mode, tag, bad=0.25):
    """one pass through the protocol; mode: ok, err (fails to boot, then again), restart, noack, norun, nodone"""
    def stray(state):
        if rng.random() > bad:
            return []
        ops = {"new": ["postboot", "getrun", "postrun", "stats", "ping", "file"],
               "booting": ["getrun", "postrun", "stats", "ping"],
               "runnable": ["file", "postrun", "stats", "ping", "postboot"],
               "running": ["file", "postboot", "ping", "getrun"],
               "end": ["postrun", "stats", "ping", "getrun", "file"]}[state]
        return [S(rng.choice(ops), interval=1, tag=900 + tag % 90, i=rng.choice([0, 0, 7]), timeout=1500)]

    boot = S("getboot", retry=100000, timeout=rng.choice([2000, 2000, 400, 150]), wait=rng.choice([20, 60, 150]), pre=rng.randrange(0, 120))
    files = [S("file", i=i, timeout=5000) for i in range(nfiles)]
    if rng.random() < bad:
        files.append(S("file", i=rng.choice([nfiles, -1, 99])))
    out = stray("new") + [dict(boot)] + stray("booting")
    if mode == "restart":
        out += files[:1] + [dict(boot)]
    if mode == "err":
        out += files[:1] + [S("postboot", arg="err", timeout=1000)] + stray("end") + [dict(boot)]
    out += files + ([] if rng.random() < .5 else stray("booting"))
    if mode == "noack":
        return out
    out += [S("postboot", timeout=1000, retry=1, stop=True, pre=rng.randrange(0, 80))] + stray("runnable")
    if mode == "norun":
        return out
    out += [S("getrun", timeout=rng.choice([9000, 9000, 500]), retry=40, wait=50, stop=True)] + stray("running")
    if mode == "nodone":
        return out
    out += [S("ping", pre=rng.randrange(0, 150)) for _ in range(rng.randrange(0, 3))]
    if rng.random() < .85:
        out += [S("stats", interval=1, tag=tag, timeout=1000, pre=rng.randrange(0, 120))]
        if rng.random() < .2:
            out += [S("stats", interval=1, tag=tag + 1, timeout=1000)]
    if rng.random() < bad:
        out += [S("ping")]
    late = rng.choice([0, 0, 0, 300, 700, 1500])      # the last statistics are there, but the remote isn't done
    out += [S("postrun", arg=rng.choice(["", "", "err"]), timeout=1000, pre=late)] + stray("end")
    return out


def gen(rng, sid):
    nst = rng.choice([1, 1, 2, 2, 3])
    stages = []
    for _ in range(nst):
        n = rng.choice([1, 2, 2, 3, 3, 4])
        stages.append(dict(n=n, local=rng.random() < .75, files=rng.choice([1, 1, 2, 3]),
                           clients=rng.choice([1, 2]), iter=rng.choice([1, 3, 8, 15])))
    nrem = [s["n"] - (1 if s["local"] else 0) for s in stages]
    if max(nrem) == 0:
        stages[-1]["n"] += 1
        nrem[-1] += 1
    test = rng.random() < .14
    kind = rng.choice(["plain"] * 6 + ["sig", "sig", "lost", "lost"]) if not test else "plain"
    remotes = []
    tot = max(nrem) + rng.choice([0, 0, 1])
    for i in range(tot):
        segs = []
        for s in range(nst + 2):
            mode = rng.choice(["ok"] * 5 + ["err", "restart"])
            segs.append(segment(rng, 3, mode, 10 * (i * 8 + s + 1)))
        remotes.append(dict(name="r%d" % (i + 1), start=rng.randrange(0, 350), segs=segs))
    sigint = []
    if kind == "sig":
        sigint = [rng.randrange(150, 1600)]
    if kind == "lost":
        m = rng.choice(["noack", "norun", "nodone"])
        remotes[0]["segs"] = [segment(rng, 1, m, 5)]
        sigint = [rng.randrange(1200, 2200)]
    # strangers, same-named remotes of another stage, and remotes that give up waiting
    for j in range(rng.choice([0, 1, 1, 2])):
        who = rng.choice(["x%d" % j, "r1", "give"])
        if who == "give":
            segs = []
            for _ in range(rng.choice([1, 2, 4])):
                g = S("getboot", timeout=rng.choice([60, 250, 500]), pre=rng.randrange(0, 500), stop=True)
                segs.append([g] + segment(rng, 3, "ok", 800 + 10 * j, bad=0)[1:])
            remotes.append(dict(name="g%d" % j, start=rng.randrange(200, 900), segs=segs))
        else:
            ops = ["postboot", "file", "postrun", "ping", "stats", "getrun"]
            segs = [[S(rng.choice(ops), name=who, sid="bad", interval=1, tag=999, timeout=700, pre=rng.randrange(0, 300), i=0)
                     for _ in range(rng.randrange(2, 8))]]
            remotes.append(dict(name=who + "-rogue", start=rng.randrange(100, 900), segs=segs))
    return dict(id=sid, stages=stages, remotes=remotes, sigint=sigint, test=test, timeout=20000, seed=rng.randrange(1 << 30), kind=kind)


def adapt(sc, ev):
    """recorded events -> the trace ComputeTrace reads"""
    ids = {}
    for e in ev:
        if e["e"] == "resp" and e.get("stage"):
            m = re.match(r"st(\d+)$", e["stage"])
            if m:
                ids[e["sid"]] = int(m.group(1))
    out = []
    op = {}
    for e in ev:
        t, k = e["t"] // 1000, e["e"]
        if k == "req":
            op[e["id"]] = e
            out.append(dict(e="req", t=t, id=e["id"], op=e["op"], name=e["name"], sid=ids.get(e["sid"], -1), arg=e["arg"],
                            i=e["ri"], interval=e["interval"], tag=e["tag"]))
        elif k == "resp":
            c = e["code"]
            if c == 0:
                out.append(dict(e="abort", t=t, id=e["id"]))
                continue
            v = "ok" if c == 200 else "reset" if c == 205 else "rej"
            kk, ii = -1, -1
            if e["op"] == "getboot" and v == "ok":
                kk = ids.get(e.get("sid"), -1)
            if e["op"] == "file" and v == "ok":
                m = re.match(r"SELECT /\*V st(\d+) t(\d+) 1 @zrc\*/ 1$", e.get("file", ""))
                kk, ii = (int(m.group(1)), int(m.group(2))) if m else (-1, -1)
            out.append(dict(e="resp", t=t, id=e["id"], op=e["op"], v=v, k=kk, i=ii))
        elif k == "q" and e.get("kind") == "stmt":
            out.append(dict(e="stmt", t=t, st=int(e["stage"][2:])))
        elif k == "mkrep":
            out.append(dict(e="mkrep", t=t, st=int(e["opts"]["stage"][2:])))
            cur = out[-1]["st"]
        elif k == "report":
            out.append(dict(e="rep", t=t, st=cur, **{"from": [dict(host=x["host"], interval=x["interval"], tag=x["clients"]) for x in e["from"]]}))
        elif k == "repstop":
            out.append(dict(e="repstop", t=t))
        elif k in ("sigint", "timeout"):
            out.append(dict(e=k, t=t))
            if k == "timeout":
                break
        elif k == "exit":
            out.append(dict(e="exit", t=t, code=e["code"]))
            break
    return out


def check(items, timeout=800):
    traces = []
    for sc, ev in items:
        a = adapt(sc, ev)
        mk, last = [10 ** 6] * len(sc["stages"]), [0] * len(sc["stages"])
        for i, e in enumerate(a, 1):
            if e["e"] == "mkrep":
                mk[e["st"] - 1] = i
            if e["e"] == "stmt":
                last[e["st"] - 1] = i
        traces.append(dict(test=sc["test"], ns=len(sc["stages"]), ev=a, mk=mk, last=last,
                           stages=[dict(n=s["n"], local=s["local"], files=s["files"]) for s in sc["stages"]]))
    f = os.path.join(vlib.tmpdir(), "ct%s.json" % os.urandom(6).hex())
    json.dump(dict(traces=traces, slack=SLACK, stopwait=STOPWAIT, exitwait=EXITWAIT), open(f, "w"))
    out, st = vlib.tlc_ok("ComputeTrace", env=dict(VERIF_IN=f), timeout=timeout, cfgtext="SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n")
    res = [dict(ok=False, at=0) for _ in items]
    for m in re.finditer(r'<<"(ACCEPTED|AT)", (\d+), (\d+)>>', out):
        r = res[int(m.group(2)) - 1]
        r["at"] = max(r["at"], int(m.group(3)))
        if m.group(1) == "ACCEPTED":
            r["ok"] = True
    for i, r in enumerate(res):
        tr = traces[i]["ev"]
        r["event"] = tr[r["at"]] if r["at"] < len(tr) else None
    return res, st
