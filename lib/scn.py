"""Abstract run scenarios: builders, random generation, and rendering.

An abstract scenario is what spec/Run.tla calls a configuration (stages, trx,
statements, workload, data keys) plus what is needed to execute it (MySQL rules,
signals).  render() turns it into stage files and trx files for finch; cfg()
into the record the specification is checked with.
"""
import json, random

READ, WRITES, DDLS = "SELECT", ["INSERT", "UPDATE", "DELETE", "REPLACE"], ["ALTER", "CREATE", "DROP", "TRUNCATE", "RENAME"]


def stmt(w, sid, uses=(), saves=(), iid="", rows=None, size=None, prep=False, idle=0,
         copies=1, copynum=False, opts="", csv=0, csvuses=(), lower=False, multiline=False):
    return dict(w=w, sid=str(sid), uses=list(uses), saves=list(saves), iid=iid, rows=rows,
                size=size, prep=prep, idle=idle, copies=copies, copynum=copynum, opts=opts,
                csv=csv, csvuses=list(csvuses), lower=lower, multiline=multiline)


def use(k, call=False, ix=0):
    return (k, call, ix)


def key(scope="", gen="v", prm="p", many=0, quote=False):
    return dict(scope=scope, gen=gen, prm=prm, many=many, quote=quote)


def cg(trx=(), clients=1, iter=0, ic=0, ieg=0, group="", rt=0, db="", nostats=False, **rates):
    d = dict(group=group, clients=clients, iter=iter, ic=ic, ieg=ieg, trx=list(trx), rt=rt, db=db,
             nostats=nostats)
    d["rates"] = rates
    return d


def stage(name, trx, workload=(), keys=None, rt=0, db="", disable=False, stats=True, lossy=False,
          freq="", qps=0, tps=0, no=1):
    return dict(name=name, trx=[dict(name=n, stmts=s) for n, s in trx], workload=list(workload),
                keys=keys or {}, rt=rt, db=db, disable=disable, stats=stats, lossy=lossy, freq=freq,
                qps=qps, tps=tps, no=no)


def scenario(sid, stages, rules=(), jitter=(0, 0), seed=1, sigint=(), sigon="", sign=0, test=False,
             tables=None, bpr=0, timeout=25000, args=()):
    for i, s in enumerate(stages):
        s["no"] = i + 1
    return dict(id=sid, stages=list(stages), rules=list(rules), jitter=list(jitter), seed=seed,
                sigint=list(sigint), sigon=sigon, sign=sign, test=test, tables=tables or {}, bpr=bpr,
                timeout=timeout, args=list(args))


# ---------------------------------------------------------------- rendering

def use_text(u):
    k, call, ix = u
    return "u(%s,@%s)" % (k, "PREV" if ix else k + ("()" if call else ""))


def stmt_text(st, t, s):
    """the statement as written in the trx file"""
    lines = []
    if s["copies"] != 1:
        lines.append("-- copies: %d" % s["copies"])
    if s["prep"]:
        lines.append("-- prepare")
    if s["idle"]:
        lines.append("-- idle: %dms" % s["idle"])
    if s["rows"]:
        lines.append("-- rows: %d %d" % s["rows"] if s["rows"][1] else "-- rows: %d" % s["rows"][0])
    if s["size"]:
        db, tbl, mx = s["size"][:3]
        if s["size"][3] == "database":
            lines.append("-- database-size: %s %d" % (db, mx))
        elif s["size"][3] == "qualified":
            lines.append("-- table-size: %s.%s %d" % (db, tbl, mx))
        else:
            lines.append("-- table-size: %s %d" % (tbl, mx))
    if s["saves"]:
        lines.append("-- save-columns: " + ", ".join(("@" + c) if c != "_" else "_" for c in s["saves"]))
    if s["iid"]:
        lines.append("-- save-insert-id: @" + s["iid"])
    w = s["w"].lower() if s["lower"] else s["w"]
    sid = s["sid"] + ("./*!copy-number*/" if s["copynum"] else "")
    opts = "".join(o + " " for o in s["opts"].split())
    nl = "\n" if s["multiline"] else " "
    text = "%s /*V %s %s %s %s@zrc*/" % (w, st["name"], t["name"], sid, opts)
    if s["uses"]:
        text += nl + " ".join(use_text(u) for u in s["uses"])
    if s["csv"]:
        text += nl + "VALUES /*!csv %d (%s)*/" % (s["csv"], ", ".join(use_text(u) for u in s["csvuses"]))
    lines.append(text)
    return "\n".join(lines) + "\n"


def expand(s):
    """statements of the specification for one written statement"""
    out = []
    for i in range(s["copies"]):
        uses = [dict(k=u[0], call=u[1], row=0, ix=u[2]) for u in s["uses"]]
        for r in range(s["csv"]):
            uses += [dict(k=u[0], call=u[1], row=r + 1, ix=u[2]) for u in s["csvuses"]]
        out.append(dict(w=s["w"], sid=s["sid"] + (".%d" % (i + 1) if s["copynum"] else ""),
                        uses=uses, saves=s["saves"], iid=s["iid"],
                        rows=dict(on=bool(s["rows"]), max=s["rows"][0] if s["rows"] else 0,
                                  off=s["rows"][1] if s["rows"] else 0),
                        size=dict(on=bool(s["size"]), db=s["size"][0] if s["size"] else "",
                                  tbl=(s["size"][1] if s["size"][3] != "database" else "") if s["size"] else "",
                                  max=s["size"][2] if s["size"] else 0),
                        prep=s["prep"], pg=0, idle=s["idle"],
                        lead=(i == 0 or s["copynum"])))
    return out


def flat_stmts(t):
    out = []
    lead = 0
    for s in t["stmts"]:
        for e in expand(s):
            if e.pop("lead"):
                lead = len(out) + 1
            e["pg"] = lead
            out.append(e)
    return out


def cfg(sc):
    """the configuration record for Run.tla"""
    stages = []
    for st in sc["stages"]:
        used_call = set()
        for t in st["trx"]:
            for s in t["stmts"]:
                for u in list(s["uses"]) + list(s["csvuses"]):
                    if u[1]:
                        used_call.add(u[0])
        stages.append(dict(
            no=st["no"], name=st["name"], disable=st["disable"], rt=st["rt"], db=st["db"],
            stats=st["stats"], lossy=st["lossy"], qps=st["qps"], tps=st["tps"], fast=st.get("fast", False),
            trx=[dict(name=t["name"], stmts=flat_stmts(t)) for t in st["trx"]],
            workload=[{k: c[k] for k in ("group", "clients", "iter", "ic", "ieg", "trx", "rt", "db", "nostats")}
                      | dict(rates={a: c["rates"].get(b, 0) for a, b in
                                    (("q", "qps"), ("t", "tps"), ("qc", "qps_clients"), ("tc", "tps_clients"),
                                     ("qe", "qps_exec_group"), ("te", "tps_exec_group"))})
                      for c in st["workload"]],
            keys={**{"zz": dict(scope="", gen="v", prm="", calls=False, quote=False)},
                  **{k: dict(scope=v["scope"], gen=v["gen"], prm=v["prm"], calls=k in used_call, quote=v["quote"])
                     for k, v in st["keys"].items()}}))
    return dict(id=sc["id"], test=sc["test"], stages=stages)


def stage_yaml(st):
    data = {"zrc": {"generator": "verif-rc", "scope": "value"}}
    for k, v in st["keys"].items():
        d = {"generator": "column" if v["gen"] == "col" else "verif-gen"}
        if v["scope"]:
            d["scope"] = v["scope"]
        p = {}
        if v["gen"] == "v":
            p["p"] = v["prm"]
            if v["many"]:
                p["many"] = str(v["many"])
        elif v["quote"]:
            p["quote-value"] = "yes"
        if p:
            d["params"] = p
        data[k] = d
    y = {"name": st["name"], "trx": [{"name": t["name"], "file": "%s-%s.sql" % (st["name"], t["name"]), "data": data}
                                     for t in st["trx"]]}
    if st["rt"]:
        y["runtime"] = "%dms" % st["rt"]
    if st["disable"]:
        y["disable"] = True
    if st["qps"]:
        y["qps"] = str(st["qps"])
    if st["tps"]:
        y["tps"] = str(st["tps"])
    w = []
    for c in st["workload"]:
        d = {}
        if c["trx"]:
            d["trx"] = c["trx"]
        if c["clients"]:
            d["clients"] = str(c["clients"])
        if c["group"]:
            d["group"] = c["group"]
        for a, b in (("iter", "iter"), ("ic", "iter-clients"), ("ieg", "iter-exec-group")):
            if c[a]:
                d[b] = str(c[a])
        if c["rt"]:
            d["runtime"] = "%dms" % c["rt"]
        if c["db"]:
            d["db"] = c["db"]
        if c["nostats"]:
            d["disable-stats"] = True
        for k, v in c["rates"].items():
            if v:
                d[k.replace("_", "-")] = str(v)
        w.append(d)
    if w:
        y["workload"] = w
    s = {"report": {"verif": {"stage": st["name"]}}}
    if st["freq"]:
        s["freq"] = st["freq"]
    if not st["stats"]:
        s = {"disable": True}
    y["stats"] = s
    y["mysql"] = {"dsn": "root:@tcp({{addr}})/" + st["db"]}
    return {"stage": y}


def render(sc, d):
    files = {}
    for st in sc["stages"]:
        files["s%d.yaml" % st["no"]] = json.dumps(stage_yaml(st), indent=1)
        for t in st["trx"]:
            files["%s-%s.sql" % (st["name"], t["name"])] = "\n".join(stmt_text(st, t, s) for s in t["stmts"])
    args = ["finch"] + (["--test"] if sc["test"] else []) + sc["args"] + ["s%d.yaml" % st["no"] for st in sc["stages"]]
    mysql = dict(rules=sc["rules"], seed=sc["seed"], tables=sc["tables"], bpr=sc["bpr"])
    if sc["jitter"][1]:
        mysql["jitter"] = sc["jitter"]
    # a run that is bounded by iterations has a few hundred events
    timed = sc["sigint"] or sc["sigon"] or any(st["rt"] or any(c["rt"] for c in st["workload"]) for st in sc["stages"])
    return dict(id=sc["id"], dir=d, files=files, timeout=sc["timeout"], maxev=150000 if timed else 6000, mysql=mysql,
                procs=[dict(inst="local", args=args, sigint=sc["sigint"], sigon=sc["sigon"], sign=sc["sign"])])
