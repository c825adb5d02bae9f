"""Small configurations for RunMC.tla: which properties each of them is about."""
import json, os
import scn, vlib
from scn import *
from fam import *


def _I(n=1, u=(), **k):
    return stmt("INSERT", n, list(u), opts="a=1", **k)


def _S(n=1, **k):
    return stmt("SELECT", n, **k)


def _o(**k):
    d = dict(conns=2, errs=0, codes=[], cps=1, ns=1, ticks=0, dt=1, stm=99, sig=False, reports=False, lazy=False)
    d.update(k)
    return d


def _one(trx, wl, keys=None, **k):
    return scenario("mc", [stage("s1", trx, wl, keys or {}, **k)])


def configs():
    """[(name, properties, thorough only, scenario, options, deadlock is an error)]"""
    N = dict(stats=False)
    A2 = [("A", [_I(1), _I(2)])]
    return [
        ("iterations of two clients", ("C03", "C04"), False,
         _one([("A", [_I(1), _S(2)])], [cg(["A"], clients=2, iter=2)], **N), _o(), True),
        ("shared iterations, reports", ("C04", "C14"), False, _one(A2, [cg(["A"], clients=2, ic=3)]), _o(reports=True), True),
        ("iterations shared by an execution group", ("C04",), False,
         _one([("A", [_I(1)]), ("B", [_I(1)])], [cg(["A"], clients=2, ieg=3, group="g"), cg(["B"], clients=1, ieg=3, group="g")], **N),
         _o(conns=3), True),
        ("stages and groups", ("C01", "C02"), False,
         scenario("mc", [stage("s1", [("A", [stmt("CREATE", 1)]), ("B", [_I(1)])], [cg(["A"]), cg(["B"], iter=2)], **N),
                         stage("s2", [("A", [_I(1)])], [cg(["A"], iter=1)], disable=True, **N),
                         stage("s3", [("C", [_I(1)])], [cg(["C"], iter=1, clients=2)], **N)]), _o(conns=4), True),
        ("errors", ("C05", "C14"), False, _one(A2, [cg(["A"], iter=3)]), _o(conns=3, errs=2, codes=[1213, 1205, 2000, 1], reports=True), True),
        ("errors of two clients", ("C05",), True, _one(A2, [cg(["A"], ic=3, clients=2)], **N), _o(conns=4, errs=2, codes=[1290, 1]), True),
        ("errors of DDL", ("C05",), False, _one([("A", [stmt("CREATE", 1), _I(2)])], [cg(["A"], iter=2)], **N),
         _o(conns=3, errs=1, codes=[1050, 1046, 1]), True),
        ("statement and trx scope", ("C07",), False,
         _one([("A", [_I(1, [use("k"), use("m")]), _I(2, [use("k"), use("m")])])], [cg(["A"], iter=2)],
              dict(k=key("statement"), m=key("trx")), **N), _o(conns=1, cps=3, ns=4), True),
        ("iter and client scope", ("C07",), False,
         _one([("A", [_I(1, [use("k")]), _I(2, [use("m")])]), ("B", [_I(1, [use("k"), use("m")])])], [cg(["A", "B"], iter=2)],
              dict(k=key("iter"), m=key("client")), **N), _o(conns=2, cps=2, ns=3, errs=1, codes=[1]), True),
        ("client group scope", ("C08",), False,
         _one([("A", [_I(1, [use("k")])])], [cg(["A"], clients=2, iter=1, group="g"), cg(["A"], clients=1, iter=1, group="g")],
              dict(k=key("client-group")), **N), _o(conns=3, cps=2, ns=2), False),
        ("execution group scope", ("C08",), False,
         _one([("A", [_I(1, [use("k")])])], [cg(["A"], clients=1, iter=2, group="g"), cg(["A"], clients=1, iter=1, group="g"),
                                             cg(["A"], clients=1, iter=1, group="h")],
              dict(k=key("exec-group")), **N), _o(conns=3, cps=2, ns=3), False),
        ("workload, stage and global scope", ("C08", "C09"), False,
         scenario("mc", [stage("s1", [("A", [_I(1, [use("w"), use("s")])])], [cg(["A"], iter=2, group="g"), cg(["A"], iter=1, group="h")],
                               dict(w=key("workload"), s=key("stage")), **N),
                         stage("s2", [("A", [_I(1, [use("g")])])], [cg(["A"], iter=2)], dict(g=key("global")), **N)]),
         _o(conns=3, cps=3, ns=3), False),
        ("value scope", ("C10",), False, _one([("A", [_I(1, [use("v"), use("v")])])], [cg(["A"], iter=1)], dict(v=key("value")), **N),
         _o(conns=1, cps=3, ns=3), True),
        ("explicit calls", ("C10",), False,
         _one([("A", [_I(1, [use("k", True), use("k")]), _I(2, [use("m"), use("m", True)])])], [cg(["A"], iter=2)],
              dict(k=key("statement"), m=key("iter")), **N), _o(conns=1, cps=3, ns=4), True),
        ("saved column", ("C21",), False,
         _one([("A", [_S(1, saves=["c"]), _I(2, [use("c")])])], [cg(["A"], clients=2, iter=2)], dict(c=key("", gen="col")), **N), _o(), True),
        ("prepared statements", ("C03",), False,
         _one([("A", [_I(1, prep=True), _I(2)])], [cg(["A"], clients=2, iter=1)], **N), _o(conns=3, errs=1, codes=[1]), True),
        ("rows limit", ("C13",), False, _one([("A", [_I(1, rows=(3, 0)), _S(2)])], [cg(["A"], clients=2, iter=4)], **N), _o(), True),
        ("runtime", ("C06",), False, _one(A2, [cg(["A"], clients=2)], rt=10, **N), _o(ticks=3, dt=6, stm=5), True),
        ("CTRL-C", ("C06",), False,
         scenario("mc", [stage("s1", A2, [cg(["A"], clients=2, iter=1)], **N), stage("s2", [("B", [_I(1)])], [cg(["B"], iter=1)], **N)]),
         _o(conns=3, sig=True, ticks=2, dt=4, stm=5), True),
        # thorough
        ("three clients", ("C04", "C03"), True, _one(A2, [cg(["A"], clients=3, ic=4)], **N), _o(conns=3), True),
        ("four groups of two stages", ("C01", "C02"), True,
         scenario("mc", [stage("s%d" % n, [("A", [_I(1)]), ("B", [_I(1), _S(2)])],
                               [cg(["A"], iter=2, group="x"), cg(["B"], iter=1, group="x"), cg(["B"], iter=1, clients=n, group="y")], **N)
                         for n in (1, 2)]), _o(conns=7, lazy=True), True),
        ("reports of two trx, errors", ("C14",), True, _one([("A", [_I(1)]), ("B", [_S(1)])], [cg(["A", "B"], clients=2, iter=2)]),
         _o(conns=3, errs=1, codes=[1213], reports=True, lazy=True), True),
        ("rows limit of three clients", ("C13",), True, _one([("A", [_I(1, rows=(4, 1))])], [cg(["A"], clients=3, iter=3)], **N), _o(conns=3), True),
    ]


def run(name, sc, op, deadlock, timeout=800):
    f = os.path.join(vlib.tmpdir(), "rmc%s.json" % os.urandom(4).hex())
    json.dump(dict(cfgs=[scn.cfg(sc)], opts=[op]), open(f, "w"))
    rc, o, st = vlib.tlc("RunMC", env=dict(VERIF_IN=f), workers=8, heap="10g", timeout=timeout,
                         cfgtext=("" if deadlock else "CHECK_DEADLOCK FALSE\n") + "SPECIFICATION Spec\nINVARIANT Guarantees\n")
    if rc != 0:
        raise vlib.Broken("model check of Run.tla (%s) failed (rc %d):\n%s" % (name, rc, o[-3000:]))
    return st
