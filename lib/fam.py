"""Scenario families: random configurations per property, all drawn from a seeded
random generator.  Every family returns an abstract scenario (scn.scenario)."""
import random
from scn import *

NAMES = ["alpha", "beta", "g", "d", "dd", "d2", "d_2", "id", "id_100", "id_1", "k", "kk", "k-k", "row", "c1", "c10", "c"]


def trx_words(r, ddl=False, n=None, begin=0.4):
    if ddl:
        ws = [r.choice(DDLS)]
        if r.random() < 0.4:
            ws.append(r.choice(DDLS + [READ] + WRITES))
        return ws
    n = n or r.randint(1, 4)
    ws = [r.choice([READ, READ] + WRITES + ["SET"]) for _ in range(n)]
    if r.random() < begin:
        ws = [r.choice(["BEGIN", "START"])] + ws + ["COMMIT"]
    return ws


def mk_trx(r, ddl=False, prep=0.25, copies=0.15, idle=0.0, n=None, lower=0.15):
    out = []
    for i, w in enumerate(trx_words(r, ddl, n)):
        dml = w in [READ] + WRITES
        s = stmt(w, i + 1, prep=dml and r.random() < prep, lower=r.random() < lower, multiline=r.random() < 0.2)
        if dml and r.random() < copies:
            s["copies"] = r.randint(2, 3)
            s["copynum"] = r.random() < 0.4
        if w in WRITES:
            s["opts"] = "a=%d" % r.randint(0, 3)
        elif w == READ:
            s["opts"] = "r=%d c=%d" % (r.randint(0, 2), r.randint(1, 2))
        if idle and r.random() < idle:
            s["idle"] = r.randint(2, 12)
        out.append(s)
    return out


def workload(r, trx, ddl, iters=True, maxcl=3, named=0.4, dbs=("",), nostats=0.0, rts=()):
    """a workload section for trx names; ddl: set of names that contain DDL"""
    mode = r.random()
    names = [t for t in trx]
    if mode < 0.12 and all(t in ddl for t in names):
        return []
    out = []
    explicit = r.random() < 0.75
    ngroups = r.randint(1, 3) if explicit else r.randint(1, 2)
    usenames = r.random() < named
    gname = None
    for g in range(ngroups):
        if explicit:
            ts = r.sample(names, r.randint(1, len(names)))
            if r.random() < 0.2:
                ts.append(r.choice(ts))
        else:
            ts = []
        has = any(t in ddl for t in (ts or names))
        c = cg(ts, clients=r.choice([0, 1, 1, 2, maxcl]), iter=0, db=r.choice(list(dbs)),
               nostats=r.random() < nostats)
        if usenames:
            # a name may only be used by consecutive client groups
            if gname is None or r.random() < 0.5:
                gname = r.choice(["setup", "run", "x1", "y", "zeta"]) + str(g)
            if r.random() < 0.9:
                c["group"] = gname
            else:
                gname = None
        if iters:
            k = r.random()
            if has and k < 0.5:
                pass
            elif k < 0.7 or has:
                c["iter"] = r.randint(1, 4)
            else:
                c["ic"] = r.randint(1, 6)
        out.append(c)
    return out


def rand_stage(r, name, maxcl=3, dbs=("",), ddlp=0.3, **kw):
    nt = r.randint(1, 3)
    trx, ddl = [], set()
    for i in range(nt):
        d = r.random() < ddlp
        n = "T%d" % (i + 1)
        trx.append((n, mk_trx(r, d, idle=kw.get("idle", 0.0))))
        if d:
            ddl.add(n)
    w = workload(r, [t[0] for t in trx], ddl, maxcl=maxcl, dbs=dbs, nostats=kw.get("nostats", 0.0),
                 named=kw.get("named", 0.4))
    if not w and any(t not in ddl for t, _ in trx):
        w = [cg([], clients=2, iter=2)]
    return stage(name, trx, w, {}, db=kw.get("db", ""))


# ------------------------------------------------------------------ families

def f_seq(r, sid):
    """C01/C02/C03: stages, groups, allocation, statement order"""
    n = r.choice([1, 1, 2, 3])
    db = r.choice(["", "app"])
    sts = []
    for i in range(n):
        st = rand_stage(r, "s%d" % (i + 1), db=db, dbs=("", "", "d1", "d2"), idle=0.15 if r.random() < 0.3 else 0.0)
        if n > 1 and r.random() < 0.2:
            st["disable"] = True
        sts.append(st)
    return scenario(sid, sts, jitter=r.choice([(0, 0), (0, 1500), (200, 4000)]), seed=r.randint(1, 10 ** 6),
                    test=r.random() < 0.06)


def f_alloc(r, sid):
    """C02: larger workloads, auto allocation; everything ends by itself"""
    k = r.random()
    nt = r.randint(2, 5)
    trx, ddl = [], []
    for i in range(nt):
        d = r.random() < 0.45
        trx.append(("T%d" % (i + 1), mk_trx(r, d, n=1 if not d else None)))
        if d:
            ddl.append("T%d" % (i + 1))
    names = [t[0] for t in trx]
    if k < 0.35:
        # automatic: DML runs for ever, so the stage has a runtime unless all DDL
        st = stage("auto", trx, [], {}, rt=0 if len(ddl) == nt else 250)
        # a DML group would block later groups until the runtime ends
        return scenario(sid, [st], jitter=(500, 3000), seed=r.randint(1, 10 ** 6))
    out = []
    n = r.randint(2, 5)
    assign = r.random() < 0.7
    cur = None
    for g in range(n):
        ts = r.sample(names, r.randint(1, min(3, nt))) if assign else []
        c = cg(ts, clients=r.choice([0, 1, 2, 4, 1, 2, 11]))
        if r.random() < 0.45:   # names must be consecutive: aabb, not aaba
            c["group"] = cur = cur if cur and r.random() < 0.6 else (cur or "") + r.choice("ab")
        else:
            cur = (cur or "") + "z"
        has = any(t in ddl for t in (ts or names))
        if not (has and r.random() < 0.6):
            c["iter"] = r.randint(1, 3)
        out.append(c)
    return scenario(sid, [stage("wl", trx, out, {})], jitter=(0, 2000), seed=r.randint(1, 10 ** 6))


def f_conc(r, sid):
    """C01/C02: every client of an execution group runs at the same time: the
    server answers the first statement only when all of them are waiting"""
    trx = [("T1", [stmt("SELECT", 1), stmt("UPDATE", 2)]), ("T2", [stmt("INSERT", 1)])]
    ng = r.randint(1, 3)
    many = r.random() < 0.15
    ws = [cg([r.choice(["T1", "T2"])], clients=r.randint(8, 20) if many else r.randint(1, 4), iter=r.randint(1, 3),
             group="same" if ng > 1 and r.random() < 0.5 else "") for _ in range(ng)]
    if any(w["group"] for w in ws):
        for w in ws:
            w["group"] = "same"
    n = sum(w["clients"] for w in ws)
    rules = [dict(on="query", re=r"\|1,1,1,1,", hold=n)]
    if any(w["clients"] for w in ws):
        pass
    return scenario(sid, [stage("conc", trx, ws, {})], rules=rules, seed=r.randint(1, 10 ** 6))


def f_iter(r, sid):
    """C04"""
    trx = [("T1", mk_trx(r, n=r.randint(1, 2))), ("T2", mk_trx(r, n=1))]
    out = []
    neg = r.randint(1, 2)
    for e in range(neg):
        ieg = r.choice([0, 0, 5, 9, 14]) if r.random() < 0.6 else 0
        for g in range(r.randint(1, 3)):
            c = cg([r.choice(["T1", "T2"])] if r.random() < 0.7 else ["T1", "T2"], clients=r.choice([1, 2, 4, 6]),
                   group="g%d" % e, ieg=ieg)
            k = r.random()
            if k < 0.5:
                c["ic"] = r.randint(1, 12)
            if r.random() < 0.5 or not (c["ic"] or ieg):
                c["iter"] = r.randint(1, 5)
            out.append(c)
    rules = []
    if r.random() < 0.4:
        rules = [dict(on="query", every=r.randint(3, 7), code=r.choice([1213, 1062, 1054, 1205]))]
    return scenario(sid, [stage("iter", trx, out, {})], rules=rules,
                    jitter=r.choice([(0, 0), (0, 800), (0, 4000)]), seed=r.randint(1, 10 ** 6))


ERRS = [1213, 1317, 1062, 1205, 1290, 1836, 1046, 1064, 1146, 1054, 2013, 3024, 1040, 1364]


def f_err(r, sid):
    """C05: errors and dropped connections at every kind of statement"""
    ddl = r.random() < 0.35
    t1 = mk_trx(r, False, prep=0.5, n=r.randint(2, 4), idle=r.choice([0, 0, 0.3]))
    trx = [("T1", t1)]
    wl = [cg(["T1"], clients=r.randint(1, 3), iter=r.randint(4, 8), db=r.choice(["", "d1"]))]
    if r.random() < 0.5:
        trx.append(("T2", mk_trx(r, False, prep=0.5, n=2, idle=r.choice([0, 0, 0.4]))))
        wl[0]["trx"] = ["T1", "T2"]
    if ddl:
        trx.append(("D", mk_trx(r, True)))
        wl.append(cg(["D"], clients=r.randint(1, 2), iter=r.choice([0, 3])))
        if r.random() < 0.5:
            wl.append(cg(["T1"], clients=1, iter=2))
    keys = {"k": key("client"), "i": key("iter"), "t": key("trx"), "s": key("statement")}
    for n, ss in trx:
        for s in ss:
            if r.random() < 0.5:
                s["uses"] = [use(k) for k in r.sample(list(keys), r.randint(1, 3))]
    rules = []
    for _ in range(r.randint(1, 3)):
        ru = dict(on="query", nth=sorted(r.sample(range(1, 24), r.randint(1, 4))))
        if r.random() < 0.25:
            ru["drop"] = True
        else:
            ru["code"] = r.choice(ERRS)
            ru["late"] = r.random() < 0.35
        if r.random() < 0.5:
            n, ss = r.choice(trx)
            s = r.choice(ss)
            ru["re"] = r"/\*V \S+ %s %s[ .]" % (n, s["sid"])
            ru["nth"] = sorted(r.sample(range(1, 7), r.randint(1, 2)))
        rules.append(ru)
    if r.random() < 0.2:   # one error after the other
        a = r.randint(2, 8)
        rules.append(dict(on="query", nth=list(range(a, a + r.randint(3, 9))), **r.choice([dict(drop=True), dict(code=r.choice(ERRS))])))
    if r.random() < 0.25:
        rules.append(dict(on="rollback", nth=[r.randint(1, 2)], **r.choice([dict(code=1213), dict(drop=True)])))
    if r.random() < 0.2:
        rules.append(dict(on="connect", nth=[r.randint(4, 7)], **r.choice([dict(drop=True), dict(code=1040)])))
    if r.random() < 0.2:   # no connection for some time
        n = sum(w["clients"] for w in wl) + 1
        rules.append(dict(on="query", nth=[3], drop=True))
        rules.append(dict(on="connect", nth=list(range(n, n + r.randint(4, 9))), **r.choice([dict(drop=True), dict(code=1040)])))
    return scenario(sid, [stage("err", trx, wl, keys, db=r.choice(["", "app"]))], rules=rules,
                    jitter=r.choice([(0, 0), (0, 2000)]), seed=r.randint(1, 10 ** 6))


def sync_start(r, st, p):
    """with probability p: all clients of the first execution group start at the same moment"""
    if r.random() >= p:
        return []
    ws = st["workload"]
    n = 0
    for c in ws:
        c["db"] = "d1"
    for c in ws:
        if c["group"] != ws[0]["group"]:
            break
        n += c["clients"]
    return [dict(on="use", hold=n)]


def f_long(r, sid):
    """C03 C04 C07 C08 C14: hundreds of iterations"""
    ks = {"s": key("statement"), "t": key("trx"), "i": key("iter"), "c": key("client"), "g": key("client-group"),
          "w": key("workload"), "o": key("stage")}
    mk = lambda n, w: stmt(w, n, [use(k) for k in r.sample(list(ks), 2)], prep=r.random() < 0.3,
                           opts="a=1" if w in WRITES else "")
    trx = [("T1", [mk(1, r.choice([READ] + WRITES))]), ("T2", [mk(1, "UPDATE")])]
    n = r.randint(258, 320)
    k = r.random()
    names = ["T1"] if r.random() < 0.7 else ["T1", "T2"]
    if k < 0.6:
        w = [cg(names, clients=1, iter=n)]
    elif k < 0.8:
        w = [cg(["T1"], clients=2, ic=2 * n)]
    else:
        w = [cg(["T1"], clients=2, ieg=n, group="g"), cg(["T2"], clients=1, ieg=n, group="g")]
    rules = [dict(on="query", every=r.randint(50, 90), code=r.choice([1213, 1205]))] if r.random() < 0.3 else []
    return scenario(sid, [stage("long", trx, w, ks)], rules=rules, seed=r.randint(1, 10 ** 6))


def f_trxerr(r, sid):
    """C05: the last statement of a trx fails; one statement trx; two trx in a row"""
    code = r.choice([1205, 1290, 1836, 1213, 1062, 1317, 1054])
    t1 = [stmt("BEGIN", 1), stmt("UPDATE", 2, prep=r.random() < 0.5), stmt("COMMIT", 3)][r.choice([0, 1]):]
    t2 = [stmt("INSERT", 1)]
    names = r.choice([["T1"], ["T2"], ["T1", "T2"], ["T2", "T1"]])
    t, s = r.choice([(n, s) for n in names for s in (t1 if n == "T1" else t2)])
    rules = [dict(on="query", re=r"/\*V \S+ %s %s " % (t, s["sid"]), nth=[r.randint(1, 3)], code=code)]
    st = stage("te", [("T1", t1), ("T2", t2)], [cg(names, clients=r.randint(1, 2), iter=5, db=r.choice(["", "d9"]))], {})
    return scenario(sid, [st], rules=rules, seed=r.randint(1, 10 ** 6))


def blocked(r, trx, ws, ok):
    """now and then clients that wait (idle, throttled) when they must stop"""
    if not ok or r.random() < 0.5:
        return
    if r.random() < 0.6:
        n, t = r.choice(trx)
        t[r.randrange(len(t))]["idle"] = r.choice([40, 9000, 9000])
    else:
        r.choice(ws)["rates"]["qps" + r.choice(["", "_clients", "_exec_group"])] = 1


def f_seqerr(r, sid):
    """C01: some clients of a group can't start, the others go on; then the next group"""
    trx = [("T1", [stmt("SELECT", 1, prep=True), stmt("UPDATE", 2)]), ("T2", [stmt("INSERT", 1)])]
    n = r.randint(3, 5)
    ws = [cg(["T1"], clients=n, iter=r.randint(6, 12), group="a"), cg(["T2"], clients=2, iter=3, group="b")]
    rules = [dict(on="prepare", nth=sorted(r.sample(range(1, n + 1), r.randint(2, n - 1))), code=r.choice([1064, 1146]))]
    sts = [stage("t1", trx, ws, {})]
    if r.random() < 0.5:
        sts.append(stage("t2", [("T1", mk_trx(r, n=1))], [cg(["T1"], clients=2, iter=2)], {}))
    return scenario(sid, sts, rules=rules, jitter=(1000, 6000), seed=r.randint(1, 10 ** 6))


def f_last(r, sid):
    """C04: clients that come to the end of shared iterations at the same moment"""
    ws, trx, rules = [], [], []
    for k in range(40):
        t = "T%d" % (k + 1)
        n = r.randint(8, 14)
        trx.append((t, [stmt("SELECT", 1)]))
        c = cg([t], clients=n, group="g%d" % k)
        c[r.choice(["ic", "ieg"])] = n + r.randint(1, 2)
        ws.append(c)
        rules.append(dict(on="query", re=r"/\*V \S+ %s " % t, nth=list(range(1, n + 1)), hold=n))
    return scenario(sid, [stage("last", trx, ws, {})], rules=rules, seed=r.randint(1, 10 ** 6))


def f_time(r, sid):
    """C06: runtimes"""
    trx = [("T1", mk_trx(r, n=2, prep=0.3)), ("T2", mk_trx(r, n=1))]
    ws = []
    ng = r.choice([1, 2, 2, 3])
    samegrp = r.random() < 0.45
    strt = r.choice([0, 0, 0, 150, 300, 500])
    for g in range(ng):
        c = cg([r.choice(["T1", "T2"])], clients=r.randint(1, 3), group="g" if samegrp else "g%d" % g)
        k = r.random()
        if k < 0.5:
            c["rt"] = r.choice([100, 200, 350, 600] if samegrp or not g else [100, 350, 1100, 1100, 1100])
        elif k < 0.7:
            c["iter"] = r.randint(1, 10)
        elif k < 0.8:
            c["ic"] = r.randint(1, 10)
        elif not strt:
            c["rt"] = 250
        ws.append(c)
    blocked(r, trx, ws, strt > 0 or all(c["rt"] for c in ws))
    sts = [stage("t1", trx, ws, {}, rt=strt)]
    if r.random() < 0.5:
        sts.append(stage("t2", [("T1", mk_trx(r, n=1))], [cg(["T1"], clients=2, iter=2)], {}))
    rules = []
    if r.random() < 0.3:   # a statement that is executing when the time is up
        rules = [dict(on="query", every=r.randint(8, 15), delay=r.choice([150, 400]))]
    return scenario(sid, sts, rules=rules, jitter=(1000, 6000), seed=r.randint(1, 10 ** 6))


def f_sigint(r, sid):
    """C06: CTRL-C"""
    trx = [("T1", mk_trx(r, n=2, prep=0.3)), ("T2", mk_trx(r, n=1))]
    ws = [cg([r.choice(["T1", "T2"])], clients=r.randint(1, 4), iter=r.choice([0, 0, 4])) for _ in range(r.randint(1, 2))]
    if r.random() < 0.3:
        ws[0]["rt"] = 2000
    blocked(r, trx, ws, True)
    sts = [stage("t1", trx, ws, {}, rt=r.choice([0, 0, 3000]))]
    if r.random() < 0.6:
        sts.append(stage("t2", [("T1", mk_trx(r, n=1))], [cg(["T1"], clients=2, iter=200)], {}))
    rules = []
    if r.random() < 0.3:
        rules = [dict(on="query", every=r.randint(8, 15), delay=r.choice([300, 1200]))]
    return scenario(sid, sts, rules=rules, jitter=(1000, 5000), seed=r.randint(1, 10 ** 6),
                    sigint=[r.choice([60, 120, 250, 400])])


def scope_trx(r, keys, nstmt=None, calls=0.15, many=(), prep=0.2, csv=0.15, vals=()):
    out = []
    for i in range(nstmt or r.randint(1, 3)):
        w = r.choice([READ] + WRITES)
        s = stmt(w, i + 1, prep=r.random() < prep)
        ks = list(keys)
        for _ in range(r.randint(1, 5)):
            k = r.choice(ks)
            s["uses"].append(use(k, call=r.random() < calls))
            if k in many:
                for x in range(1, many[k]):
                    s["uses"].append(use(k, ix=x))
        if r.random() < csv and w != READ:
            s["csv"] = r.randint(2, 4)
            cs = [k for k in ks if k not in many]
            s["csvuses"] = [use(r.choice(cs), call=r.random() < calls / 2) for _ in range(r.randint(1, 4))]
        if r.random() < 0.12:
            s["copies"] = 2
        out.append(s)
    return out


def pick_names(r, n):
    return r.sample(NAMES, n)


def scope_stage(r, name, scopes, maxcl=3, calls=0.15, csv=0.15, err=0.2, keys=None, prm="p", iters=(2, 5), many=0.15,
                groups=(1, 3), samegroup=0.5, unscoped_csv=False):
    nk = r.randint(1, 4)
    ks = {}
    manyk = {}
    for k in pick_names(r, nk):
        ks[k] = key(r.choice(scopes), prm=prm)
        if r.random() < many:
            ks[k]["many"] = 2
            manyk[k] = 2
    if all(k in manyk for k in ks):
        ks["plain"] = key(r.choice(scopes), prm=prm)
    if keys:
        ks.update(keys)
    nt = r.randint(1, 3)
    trx = [("T%d" % (i + 1), scope_trx(r, ks, calls=calls, csv=csv, many=manyk)) for i in range(nt)]
    names = [t[0] for t in trx]
    ws = []
    same = r.random() < samegroup
    for g in range(r.randint(*groups)):
        ts = r.sample(names, r.randint(1, nt))
        if r.random() < 0.3:
            ts.append(r.choice(ts))
        ws.append(cg(ts, clients=r.randint(1, maxcl), iter=r.randint(*iters), group="g" if same else "g%d" % g))
    return stage(name, trx, ws, ks)


def scope_rules(r, p=0.4):
    if r.random() >= p:
        return []
    return [dict(on="query", every=r.randint(4, 9), **r.choice([dict(code=1213), dict(code=1054), dict(code=1205), dict(drop=True)]))]


def f_scope1(r, sid):
    st = scope_stage(r, "sc", ["statement", "trx", "iter", "client", ""], calls=0.0, csv=0.0)
    return scenario(sid, [st], rules=scope_rules(r), jitter=r.choice([(0, 0), (0, 1500)]), seed=r.randint(1, 10 ** 6))


def f_scope2(r, sid):
    st = scope_stage(r, "sc", ["client-group", "exec-group", "workload"], maxcl=5, calls=0.0, csv=0.0, many=0.1,
                     groups=(1, 4))
    return scenario(sid, [st], rules=scope_rules(r, 0.25) + sync_start(r, st, 0.4), jitter=r.choice([(0, 0), (0, 500), (0, 3000)]),
                    seed=r.randint(1, 10 ** 6))


def f_scope3(r, sid):
    """stage and global scopes over several stages, also first use at once"""
    n = r.randint(1, 3)
    gk = {k: key("global", prm="g") for k in r.sample(["glob", "gg"], r.randint(1, 2))}
    sts = []
    for i in range(n):
        sts.append(scope_stage(r, "s%d" % (i + 1), ["stage", "stage", "stage", "iter"], maxcl=6, calls=0.0, csv=0.0,
                               keys={k: dict(v) for k, v in gk.items()}, prm="p%d" % i, many=0.0, iters=(1, 3)))
    if n > 1 and r.random() < 0.7:   # the same stage scoped key in two stages, configured differently
        for i, st in enumerate(sts):
            st["keys"]["shared"] = key("stage", prm="q%d" % i)
            st["trx"][0]["stmts"][0]["uses"].append(use("shared"))
    rules = sync_start(r, sts[0], 0.6)
    return scenario(sid, sts, rules=rules, jitter=r.choice([(0, 0), (0, 1000)]), seed=r.randint(1, 10 ** 6))


def f_scope3c(r, sid):
    """explicit calls of stage and global keys"""
    st = scope_stage(r, "s1", ["stage", "global"], maxcl=r.choice([1, 3]), calls=0.2, csv=0.0, many=0.0)
    return scenario(sid, [st], jitter=(0, 1000), seed=r.randint(1, 10 ** 6))


def f_scopex(r, sid):
    """C10: calls, rows, values, tricky names"""
    sc = ["", "", "row", "value", "statement", "trx", "iter", "client"]
    st = scope_stage(r, "sx", sc, calls=0.25, csv=0.6, many=0.1, maxcl=2, iters=(2, 3))
    return scenario(sid, [st], rules=scope_rules(r, 0.15), jitter=(0, 500), seed=r.randint(1, 10 ** 6))


def f_scopexm(r, sid):
    """C10: explicit calls in shared scopes"""
    st = scope_stage(r, "sx", ["client-group", "exec-group", "workload"], calls=0.3, csv=0.0, many=0.0, maxcl=3)
    return scenario(sid, [st], jitter=(0, 1500), seed=r.randint(1, 10 ** 6))


def f_rows(r, sid):
    """C13: rows limits"""
    n = r.randint(1, 4)
    mx = r.randint(3, 25)
    off = r.choice([0, 0, 2, 5])
    ins = stmt(r.choice(WRITES), 1, rows=(mx, off), opts="a=%d" % r.randint(1, 4), prep=r.random() < 0.4)
    t = [ins]
    if r.random() < 0.5:
        t.append(stmt("SELECT", 2))
    if r.random() < 0.3:
        t.insert(0, stmt("BEGIN", 0))
        t.append(stmt("COMMIT", 9))
    trx = [("L", t)]
    w = [cg(["L"], clients=n, iter=r.choice([0, 0, 0, 3]))]
    if r.random() < 0.3:
        trx.append(("M", [stmt("UPDATE", 1, rows=(r.randint(2, 12), 0), opts="a=2")]))
        w = [cg(r.choice([["L", "M"], ["M", "L"]]), clients=n)]
    elif r.random() < 0.4:
        w.append(cg(["L"], clients=2, group="other" if r.random() < 0.5 else ""))
    rules = []
    if r.random() < 0.3:
        rules.append(dict(on="query", every=r.randint(3, 6), code=r.choice([1213, 1062, 1205])))
    if r.random() < 0.4:
        rules.append(dict(on="query", re="L 1 ", every=2, aff=r.randint(0, 3)))
    return scenario(sid, [stage("lim", trx, w, {})], rules=rules, jitter=r.choice([(0, 0), (0, 2500)]),
                    seed=r.randint(1, 10 ** 6))


def f_size(r, sid):
    """C13: size limits"""
    kind = r.choice(["table", "table", "qualified", "database"])
    bpr = 1000
    mx = r.randint(4, 20) * bpr
    tbls = {"app": ["t1", "t2", "v1:view"], "other": ["t1", "t3"]}
    if r.random() < 0.5:
        tbls["app"] = ["t1"]
    target = "other" if kind in ("qualified", "database") and r.random() < 0.5 else "app"
    tb = r.choice([t for t in tbls[target] if ":" not in t])
    sz = (target, tb, mx, kind)
    ins = stmt("INSERT", 2, size=sz, opts="a=%d t=%s" % (r.randint(1, 2), (target + "." + tb)), prep=r.random() < 0.3)
    t = [stmt("BEGIN", 1), ins, stmt("COMMIT", 3)]
    if kind == "database" and len(tbls[target]) > 1:
        o = [x for x in tbls[target] if ":" not in x and x != tb]
        if o:
            t.insert(2, stmt("INSERT", 4, opts="a=2 t=%s.%s" % (target, o[0])))
    if r.random() < 0.4:
        ins["rows"] = (r.randint(5, 30), 0)
    st = stage("size", [("Z", t)], [cg(["Z"], clients=r.randint(1, 3))], {}, db="app")
    return scenario(sid, [st], tables=tbls, bpr=bpr, jitter=r.choice([(0, 0), (0, 1500)]), seed=r.randint(1, 10 ** 6),
                    timeout=9000)


def f_rate(r, sid):
    """C12: rate limits at every level; every statement is executed in the end"""
    def trx():
        ws = [r.choice([READ] + WRITES) for _ in range(r.randint(1, 3))]
        if r.random() < 0.7:
            ws = [r.choice(["BEGIN", "START"])] + ws + ["COMMIT"]
        if r.random() < 0.15:
            ws = ws * 2
        return [stmt(w, i + 1, opts="a=1" if w in WRITES else "", prep=w == READ and r.random() < 0.3) for i, w in enumerate(ws)]
    stages = []
    for k in range(r.choice([1, 1, 1, 2])):
        T = [("A", trx()), ("B", trx())]
        beg = {n: sum(1 for s in t if s["w"] in ("BEGIN", "START")) for n, t in T}
        st = stage("rt%d" % k, T, [])
        st["fast"] = True
        rate = lambda lo=15, hi=70: r.randint(lo, hi)
        # two limits of the same kind, of which the lower one matters
        two = r.sample(["stage", "_exec_group", "_clients", ""], 2) if r.random() < 0.5 else []
        tk = r.choice(["qps", "tps"])
        swap = r.random() < 0.5
        if r.random() < 0.3:
            st["qps"] = rate(25)
        if r.random() < 0.3:
            st["tps"] = rate(12, 40)
        # about two seconds for every limited client
        wl = []
        for g in range(1 if two else r.choice([1, 1, 2])):
            eg = {}
            if r.random() < 0.3:
                eg["qps_exec_group"] = rate(25)
            if r.random() < 0.3:
                eg["tps_exec_group"] = rate(12, 40)
            for _ in range(r.choice([1, 2])):
                names = r.choice([["A"], ["B"], ["A", "B"]])
                rt = dict(eg)
                if r.random() < 0.35:
                    rt["qps_clients"] = rate()
                if r.random() < 0.3:
                    rt["qps"] = rate(10)
                if r.random() < 0.25:
                    rt["tps_clients"] = rate(10, 40)
                if r.random() < 0.2:
                    rt["tps"] = rate(8, 30)
                wl.append(cg(names, clients=r.randint(1, 3), group="e%d" % g, **rt))
        if two:
            lims = [r.randint(10, 20), r.randint(60, 100)]
            st["rt"] = 2000
            if swap:
                lims.reverse()
            st["qps"] = st["tps"] = 0
            for c in wl:
                c["rates"] = {}
            for l, n in zip(two, lims):
                if l == "stage":
                    st[tk] = n
                for c in wl:
                    if l != "stage":
                        c["rates"][tk + l] = n
        for c in wl:
            n = sum(len(dict(T)[t]) for t in c["trx"])
            nb = sum(beg[t] for t in c["trx"])
            cl = c["clients"]
            group = [x for x in wl if x["group"] == c["group"]]
            per = []     # iterations per second of one client under each limit
            for q, t, div in ((st["qps"], st["tps"], 2 * len(group) * cl),
                              (c["rates"].get("qps_exec_group"), c["rates"].get("tps_exec_group"), 2 * len(group) * cl),
                              (c["rates"].get("qps_clients"), c["rates"].get("tps_clients"), cl),
                              (c["rates"].get("qps"), c["rates"].get("tps"), 1)):
                if q:
                    per.append(q / n / div)
                if t and nb:
                    per.append(t / nb / div)
            c["iter"] = max(2, int(min(per) * 1.5)) if per else max(30, 400 // (n * cl))
            if two and per:
                c["iter"] = 0
        st["workload"] = wl
        stages.append(st)
    return scenario(sid, stages, seed=r.randint(1, 10 ** 6), timeout=30000)


def f_stats(r, sid):
    """C14: counting"""
    st = rand_stage(r, "st", nostats=0.25, ddlp=0.15, maxcl=4)
    if all(c["nostats"] for c in st["workload"]) and st["workload"]:
        st["workload"][0]["nostats"] = False
    rules = []
    if r.random() < 0.6:
        rules = [dict(on="query", every=r.randint(3, 9), **r.choice([dict(code=1213), dict(code=1054), dict(code=1205), dict(drop=True)]))]
        if r.random() < 0.5:
            rules.append(dict(on="query", nth=[4, 9, 10], code=1062))
    return scenario(sid, [st], rules=rules, jitter=r.choice([(0, 300), (0, 3000), (1000, 9000)]), seed=r.randint(1, 10 ** 6))


def f_statsfreq(r, sid):
    """C14: many intervals"""
    trx = [("T1", mk_trx(r, n=2)), ("T2", mk_trx(r, n=1))]
    w = [cg(["T1"], clients=r.randint(1, 3), iter=0), cg(["T2"], clients=2)]
    st = stage("fr", trx, w, {}, rt=r.choice([1300, 2600]))
    st["freq"] = "1s"
    return scenario(sid, [st], jitter=(200, 3000), seed=r.randint(1, 10 ** 6))


def f_save(r, sid):
    """C21"""
    nc = r.randint(1, 3)
    cols = [("col" + str(i) if r.random() < 0.5 else n) for i, n in enumerate(r.sample(["a", "aa", "q", "qq", "q1", "zed"], nc))]
    keys = {c: key(r.choice(["", "trx", "iter", "client"]), gen="col", quote=r.random() < 0.25) for c in cols}
    keys["s"] = key("statement")
    saves = []
    for c in cols:
        if r.random() < 0.3:
            saves.append("_")
        saves.append(c)
    if r.random() < 0.2:
        saves.append("_")
    rows = r.choice([1, 1, 2, 3])
    t = [stmt("SELECT", 1, saves=saves, opts="r=%d c=%d" % (rows, len(saves)) + (" n=y" if r.random() < 0.5 else ""),
              prep=r.random() < 0.4, uses=[use("s")])]
    t.append(stmt(r.choice(WRITES), 2, [use(c) for c in r.sample(cols, len(cols))], prep=r.random() < 0.4))
    iid = r.random() < 0.6
    if iid:
        keys["iid"] = key(r.choice(["", "iter", "client"]), gen="col")
        t.append(stmt("INSERT", 3, [use("s")], iid="iid", prep=r.random() < 0.4))
        t.append(stmt("UPDATE", 4, [use("iid"), use(cols[0]), use("iid")], prep=r.random() < 0.4))
    r.random()
    trx = [("S", t)]
    names = ["S"]
    if r.random() < 0.4:
        # later trx, same client: only scopes wider than trx still hold the value
        wide = [c for c in cols if keys[c]["scope"] in ("iter", "client")]
        if wide:
            trx.append(("U", [stmt("UPDATE", 1, [use(c) for c in wide])]))
            names = ["S", "U"]
    rules = []
    if r.random() < 0.35:   # an empty result now and then, after the first
        rules.append(dict(on="query", re=r"/\*V \S+ S 1 ", every=r.randint(3, 4), rows=0))
    elif r.random() < 0.3:  # an error after (some of) the rows
        rules.append(dict(on="query", re=r"/\*V \S+ S 1 ", nth=sorted(r.sample(range(1, 9), 2)), code=r.choice([1213, 1317, 1054]), late=True))
    if r.random() < 0.3:
        rules.append(dict(on="query", nth=[r.randint(8, 14)], code=r.choice([1213, 1054])))
    if iid and r.random() < 0.4:   # no insert ID, and IDs of any size
        rules.append(dict(on="query", re=r"/\*V \S+ S 3 ", every=r.randint(2, 4), iid=r.choice([0, 0, 1, 2**31, 2**40 + 3, 2**62])))
    return scenario(sid, [stage("sv", trx, [cg(names, clients=r.randint(1, 4), iter=r.randint(3, 6))], keys)],
                    rules=rules, jitter=r.choice([(0, 0), (0, 2000)]), seed=r.randint(1, 10 ** 6))


FAMS = {n[2:]: f for n, f in list(globals().items()) if n.startswith("f_")}
