"""Registry of checks: which machinery decides which property."""
import collections, json, os, random, re, shutil, sys, time, traceback
import vlib, scn, runtrace, fam

VERIF = vlib.VERIF
CRASH = {"hang", "exit", "panic", "eval"}
# verdicts that depend on measured time are confirmed by re-running the scenario
TIMING = runtrace.TIMING

# verdicts for records that the specification cannot even interpret


def RUNBAD(it, e):
    return dict(ok=False, labels=["eval"], at=0, event="not interpretable: " + str(e)[-300:])


def PROTOBAD(it, e):
    return dict(ok=False, at=0, event=None, err="not interpretable: " + str(e)[-300:])


class Out:
    """what one check run found"""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.cov = collections.Counter()
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.notes, self.parts = [], [], [], []
        self.evals = self.distinct = 0
        self.known = []

    def quick(self):
        return self.tier == "quick"

    def replay_dir(self, name):
        d = os.path.join(VERIF, "replay", self.pid, name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d

    def violate(self, name, what, data=None, src=None):
        """record a violation; data is written to the replay directory, src copied"""
        if len(self.violations) >= 5:
            self.violations.append((name, what, None))
            return
        d = self.replay_dir(re.sub(r"[^\w.-]", "_", name))
        if src and os.path.isdir(src):
            shutil.copytree(src, d, dirs_exist_ok=True)
        with open(os.path.join(d, "violation.json"), "w") as f:
            json.dump(dict(property=self.pid, what=what, tier=self.tier, seed=self.seed, data=data), f, indent=1, default=str)
        self.violations.append((name, what, d))

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)


# ---- trace checking of complete runs ----------------------------------------

def brief(sc, ev):
    q = [e for e in ev if e["e"] == "q"]
    return dict(scenario=sc["id"], stages=[dict(name=st["name"], groups=len(st["workload"]), runtime_ms=st["rt"]) for st in sc["stages"]],
                mysql_rules=sc["rules"][:2], events=len(ev), queries=len(q),
                first_statements=[e["text"][:100] for e in q[:3]])


def run_fams(out, fams, labels, timing=TIMING):
    """fams: [(family, quick count, thorough count)]"""
    h = vlib.build()
    scs = []
    for f, nq, nt in fams:
        for i in range(nq if out.quick() else nt):
            sid = "%s-%d-%d" % (f, out.seed, i)
            scs.append((f, fam.FAMS[f](random.Random("%s/%d/%d" % (f, out.seed, i)), sid)))
    random.Random(out.seed).shuffle(scs)
    root = os.path.join(vlib.tmpdir(), "run")

    def go(x, tag=""):
        d = os.path.join(root, x[1]["id"] + tag)
        return x[1], vlib.run_scenario(h, d, scn.render(x[1], d))

    def check(items):
        n = 6 if len(items) > 60 else 4
        chunks = [items[k::n] for k in range(n) if items[k::n]]
        rr = vlib.pmap(lambda c: vlib.robust(lambda x: runtrace.check(x, labels), c, RUNBAD), chunks, n)
        res = {}
        for c, (r, st) in zip(chunks, rr):
            out.states += st["distinct"]
            out.transitions += st["generated"]
            for (s, e), x in zip(c, r):
                res[s["id"]] = x
        return res

    BATCH = 240
    for b in range(0, len(scs), BATCH):
        part = scs[b:b + BATCH]
        items = vlib.pmap(go, part)
        res = check(items)
        out.traces += len(items)
        seen = collections.Counter()
        for (f, _), (s, e) in zip(part, items):
            out.cov["scenario family " + f] += 1
            out.cov["events"] += len(e)
            out.cov["statements"] += sum(1 for x in e if x["e"] == "q")
            if sum(1 for x in e if x["e"] == "q") >= 2:
                out.distinct += 1
            if seen[f] == 0:
                out.sample(brief(s, e))
            seen[f] += 1
        bad = [(x, it) for x, it in zip(part, items) if not res[it[0]["id"]]["ok"]]
        hits = []
        for x, (s, e) in bad:
            r = res[s["id"]]
            if set(r["labels"]) & labels:
                hits.append((x, s, r))
            else:
                out.notes.append("scenario %s rejected for another property (%s)" % (s["id"], ",".join(sorted(set(r["labels"])))))
        # a verdict that depends on measured time must come up again
        hits.sort(key=lambda h: bool(set(h[2]["labels"]) & timing))
        hits = hits[:12]
        redo = [(x, s, k) for x, s, r in hits if set(r["labels"]) & timing for k in range(2)]
        again = collections.Counter()
        if redo and not sum(1 for h in hits if not set(h[2]["labels"]) & timing) >= 3:
            ritems = vlib.pmap(lambda a: go(a[0], ".again%d" % a[2]), redo)
            for (x, s, k), (r2, _) in zip(redo, vlib.pmap(lambda it: vlib.robust(lambda x: runtrace.check(x, labels), [it], RUNBAD), ritems, 6)):
                if not r2[0]["ok"] and set(r2[0]["labels"]) & labels:
                    again[s["id"]] += 1
        for x, s, r in hits:
            hit = sorted(set(r["labels"]) & labels)
            if set(r["labels"]) & timing and not again[s["id"]]:
                out.notes.append("scenario %s: %s not reproduced" % (s["id"], ",".join(hit)))
                continue
            out.violate(s["id"], "execution is not a behaviour of Run.tla: condition %s fails at event %d" % (",".join(hit), r["at"]),
                        data=dict(event=r["event"], labels=r["labels"]), src=os.path.join(root, s["id"]))
        if len(out.violations) >= 5:
            break
        if out.quick() is False and time.time() - out.t0 > 780:
            out.notes.append("stopped early at %d scenarios for time" % (b + len(part)))
            break
        shutil.rmtree(root, ignore_errors=True)
    out.evals += out.traces


RUN = {
    "C01": ([("seq", 60, 600), ("conc", 16, 120), ("alloc", 12, 100), ("err", 12, 80), ("time", 8, 60), ("seqerr", 6, 40)],
            {"seq", "conc", "start", "ident", "stop", "midstop"}),
    "C02": ([("alloc", 60, 600), ("seq", 30, 200), ("conc", 16, 120)],
            {"conc", "ident", "start", "seq", "order", "db", "stats"}),
    "C03": ([("seq", 30, 300), ("alloc", 30, 200), ("iter", 20, 200), ("rows", 12, 100), ("trxerr", 12, 100),
            ("err", 24, 200), ("long", 4, 30)],
            {"order", "conn", "db", "prep", "idle", "rc", "text", "extra", "midstop", "stop", "ident",
             "err-order", "err-db", "err-prep", "err-conn", "err-rc"}),
    "C04": ([("iter", 90, 1000), ("long", 6, 40), ("last", 32, 300)], {"iter", "midstop", "stop", "start", "ident", "order"}),
    "C05": ([("err", 80, 800), ("trxerr", 40, 400), ("save", 40, 400)],
            {"err", "err-stop", "err-order", "err-db", "err-prep", "err-conn", "err-rc", "stop", "midstop", "conn", "order", "extra", "prep", "db", "rc", "iter", "idle", "stats", "ident", "seq"}),
    "C06": ([("time", 36, 300), ("sigint", 36, 300)],
            {"time", "cerr", "norep", "midstop", "stop", "seq", "stats", "extra"}),
    "C07": ([("scope1", 70, 700), ("long", 4, 40)], {"sc1", "text"}),
    "C08": ([("scope2", 70, 700), ("long", 6, 40)], {"sc2", "text"}),
    "C09": ([("scope3", 50, 500), ("scope3c", 20, 200)], {"sc3", "text"}),
    "C10": ([("scopex", 50, 500), ("scopexm", 25, 250)], {"scx", "text"}),
    "C12": ([("rate", 40, 200)], {"rate", "slow"}),
    "C13": ([("rows", 50, 500), ("size", 50, 300)], {"lim", "meta", "midstop", "stop", "iter", "extra"}),
    "C14": ([("stats", 40, 300), ("statsfreq", 16, 60), ("err", 16, 60), ("long", 4, 20), ("time", 16, 100)], {"stats", "rtime", "norep"}),
    "C21": ([("save", 70, 700)], {"save", "text"}),
}


def run_part(pid):
    fams, labels = RUN[pid]
    return lambda out: run_fams(out, fams, labels | CRASH)


def runmc_part(pid):
    def part(out):
        import runmc
        for name, props, thorough, sc, op, dead in runmc.configs():
            if pid not in props or (thorough and out.quick()):
                continue
            st = runmc.run(name, sc, op, dead)
            out.states += st["distinct"]
            out.transitions += st["generated"]
            out.cov["model-checked states of RunMC: %s" % name] += st["distinct"]
    return part


PARTS = collections.defaultdict(list)
for _p in RUN:
    PARTS[_p].append(run_part(_p))
    PARTS[_p].append(runmc_part(_p))

# ---- client/server protocol ------------------------------------------------

def run_proto(out, mod, tag, nq, nt, confirm):
    """scenarios of lib/<mod>.py against the real program, checked with its trace spec"""
    h = vlib.build()
    n = nq if out.quick() else nt
    root = os.path.join(vlib.tmpdir(), tag)
    scs = [mod.gen(random.Random("%s/%d/%d" % (tag, out.seed, i)), "%s-%d-%d" % (tag, out.seed, i)) for i in range(n)]

    def go(sc, t=""):
        d = os.path.join(root, sc["id"] + t)
        return sc, vlib.run_scenario(h, d, mod.render(sc, d))

    for b in range(0, n, 240):
        items = vlib.pmap(go, scs[b:b + 240], 14)
        chunks = [items[k::4] for k in range(4) if items[k::4]]
        res = {}
        for c, (r, st) in zip(chunks, vlib.pmap(lambda c: vlib.robust(mod.check, c, PROTOBAD), chunks, 4)):
            out.states += st["distinct"]
            out.transitions += st["generated"]
            for (s, e), x in zip(c, r):
                res[s["id"]] = x
        bad = []
        for s, e in items:
            x = res[s["id"]]
            out.traces += 1
            out.evals += 1
            out.distinct += 1
            out.cov[tag + " scenarios: " + s["kind"]] += 1
            out.cov["events"] += len(e)
            if any(v["e"] == "exit" and v["code"] == -99 for v in e):
                out.cov[tag + " scenarios not run: no namespaces"] += 1
            out.sample(dict(scenario=s["id"], kind=s["kind"], events=len(e), config=s.get("show") or s.get("stages", s.get("stage"))))
            if not x["ok"]:
                bad.append((s, x))
        bad.sort(key=lambda b: confirm(b[1]))
        bad = bad[:8]
        redo = [s for s, x in bad if confirm(x)]
        if sum(1 for s, x in bad if not confirm(x)) >= 3:
            redo, bad = [], [b for b in bad if not confirm(b[1])]
        again = collections.Counter()
        ritems = vlib.pmap(lambda a: go(a[0], ".again%d" % a[1]), [(s, k) for s in redo for k in range(2)], 14)
        for (s, e), (r, _) in zip(ritems, vlib.pmap(lambda it: vlib.robust(mod.check, [it], PROTOBAD), ritems, 6)):
            again[s["id"]] += not r[0]["ok"]
        for s, x in bad:
            if confirm(x) and not again[s["id"]]:
                out.notes.append("scenario %s: %s not reproduced" % (s["id"], x["event"]))
                continue
            out.violate(s["id"], "execution is not a behaviour of %s: stuck before event %d: %s" % (mod.SPECNAME, x["at"] + 1, x["event"]),
                        data=dict(event=x["event"], at=x["at"]), src=os.path.join(root, s["id"]))
        shutil.rmtree(root, ignore_errors=True)
        if not out.quick() and time.time() - out.t0 > 700:
            out.notes.append("stopped early for time")
            break


def model_check(out, module, name, cfgtext, timeout=600, workers=8):
    """exhaustive model checking of a specification: must succeed"""
    rc, o, st = vlib.tlc(module, cfgtext=cfgtext, workers=workers, heap="10g", timeout=timeout)
    if rc != 0:
        raise vlib.Broken("model check of %s (%s) failed:\n%s" % (module, name, o[-3000:]))
    out.states += st["distinct"]
    out.transitions += st["generated"]
    out.cov["model-checked states of %s %s" % (module, name)] += st["distinct"]


def compute_mc(out):
    import compute
    cases = [("3 instances then 2 remote only", "MCStages1", 6, 2, "FALSE", "FALSE"), ("boot test", "MCStages1", 6, 2, "TRUE", "FALSE"),
             ("interrupted", "MCStages2", 6, 2, "FALSE", "TRUE")]
    if not out.quick():
        cases = [("3 instances then 2 remote only", "MCStages1", 9, 3, "FALSE", "FALSE"), ("boot test", "MCStages1", 8, 3, "TRUE", "FALSE"),
                 ("three stages, interrupted", "MCStages2", 9, 2, "FALSE", "TRUE")]
    for name, stg, mr, mp, test, sig in cases:
        model_check(out, "ComputeMC", name, compute.mc_cfg(stg, mr, mp, test, sig))


def compute_part(out):
    import compute
    run_proto(out, compute, "compute", 120, 1500,
              lambda x: x["event"] is None or x["event"]["e"] in ("timeout", "exit") or x["event"].get("op") == "ping")


PARTS["C17"] += [compute_mc, compute_part]


def remote_part(out):
    import remote
    run_proto(out, remote, "remote", 130, 1500, lambda x: True)


PARTS["C18"] += [remote_part]


def dist_part(pid, nq, nt):
    def part(out):
        import dist
        run_proto(out, dist.For(pid), "dist" + pid, nq, nt, dist.timing)
    return part


def dist_mc(out):
    import dist
    for name, a in dist.MC if out.quick() else dist.MC + dist.MC_TH:
        model_check(out, "DistMC", name, dist.mc_cfg(*a), workers=4)
    for fault, local in [] if out.quick() else dist.MC_BAD:
        rc, o, st = vlib.tlc("DistMC", cfgtext=dist.mc_cfg(2, 1, 1, 2, local, fault, False), workers=2, timeout=300)
        if "Kept is violated" not in o:
            raise vlib.Broken("DistMC accepts the wrong design " + fault)
        out.cov["wrong designs rejected by DistMC"] += 1


PARTS["C18"].append(dist_mc)

for _p, _q, _t in (("C14", 10, 200), ("C15", 18, 300), ("C17", 24, 400), ("C18", 24, 400)):
    PARTS[_p].append(dist_part(_p, _q, _t))


def collector_part(out):
    import coll
    for n, k, m in ([(1, 5, 2), (2, 6, 3), (3, 5, 2)] if out.quick() else [(2, 8, 3), (3, 6, 3), (4, 5, 2)]):
        hs, st = coll.histories(n, k, m)
        out.states += st["distinct"]
        out.transitions += st["generated"]
        out.cov["histories of %d arrivals, %d instances (all)" % (k, n)] += len(hs)
        for b in range(0, len(hs), 20000):
            judge_cases(out, coll, [coll.case(n, h, adv=1) for h in hs[b:b + 20000]], "history")
    rng = random.Random("coll/%d" % out.seed)
    cs = []
    for i in range(500 if out.quick() else 6000):
        n = rng.randrange(1, 5)
        ops, li, hi = [], 0, 1
        for _ in range(rng.choice([0, 2, 4, 6, 25])):
            if rng.random() < .4 or n == 1:
                ops.append(("c", 0))
                hi = max(hi, len([o for o in ops if o[0] == "c"]))
            else:
                ops.append(("r%d" % rng.randrange(1, n), max(1, hi + rng.choice([-2, -1, 0, 0, 0, 0, 1, 1, 2]))))
        cs.append(coll.with_stop(rng, coll.case(n, ops, freq=rng.choice(["", "1h"])), i))
    judge_cases(out, coll, cs, "end of stage")
    judge_cases(out, coll, [dict(n=rng.randrange(1, 5), freq="1h", free=True, seed=rng.randrange(1 << 30), stop=dict(on=False))
                            for _ in range(150 if out.quick() else 2000)], "concurrent")


def judge_cases(out, mod, cases, what, again=True):
    """run the cases in the code, let TLC judge the records"""
    r, err = mod.run(cases)
    if r is None:
        out.violate(what.replace(" ", "-") + "-crash", "the program crashed: " + err[-300:], data=err)
        return
    bad, st = mod.check(r)
    out.states += st[0]
    out.transitions += st[1]
    out.traces += len(r)
    out.evals += len(r)
    out.distinct += len(r)
    out.cov[what + " cases"] += len(r)
    out.sample(dict(kind=what, case=str(r[len(r) // 2])[:700]))
    if bad and what in ("end of stage", "places", "connections"):      # can depend on measured time
        r2, _ = mod.run([cases[i] for i in bad])
        b2 = mod.check(r2)[0] if r2 else range(len(bad))
        keep = [bad[k] for k in b2]
        for i in sorted(set(bad) - set(keep))[:3]:
            out.notes.append("%s case %d not reproduced" % (what, i))
        bad = keep
    for i in bad[:5]:
        out.violate("%s-%d" % (what.replace(" ", "-"), i), "%s: not a behaviour of %s: %s" % (what, mod.SPECNAME, str(cases[i])[:300]), data=r[i])


PARTS["C15"] += [collector_part]


def histo_part(out):
    import histo
    for k, d in ([(3, 2)] if out.quick() else [(3, 3), (4, 2)]):
        hs, st = histo.histories(k, d)
        out.states += st["distinct"]
        out.transitions += st["generated"]
        out.cov["histories of %d operations (all)" % k] += len(hs)
        for b in range(0, len(hs), 30000):
            judge_cases(out, histo, [histo.hist_case(h) for h in hs[b:b + 30000]], "history")
    for b in range(1 if out.quick() else 12):
        rng = random.Random("histo/%d/%d" % (out.seed, b))
        judge_cases(out, histo, [histo.ops_case(rng) for _ in range(300)], "operations")
        judge_cases(out, histo, [histo.report_case(rng) for _ in range(300)], "report")


PARTS["C16"] += [histo_part]



def gen_part(out):
    import gen
    rng = random.Random("gen/%d" % out.seed)
    for k, m in ([(6, 3)] if out.quick() else [(8, 3), (9, 2)]):
        hs, st = gen.histories(k, m)
        out.states += st["distinct"]
        out.transitions += st["generated"]
        out.cov["histories of %d calls and copies (all)" % k] += len(hs)
        judge_cases(out, gen, [gen.case(nm, p, "seq", ops=gen.hist_ops(h, rng)) for h in hs for nm, p in
                               (("auto-inc", {}), ("auto-inc", dict(start=5, step=3)), ("int-range-seq", dict(begin=1, end=5, size=2)),
                                ("client-id", dict(ids=["trx", "client"])))], "history")
    for b in range(1 if out.quick() else 15):
        for f, n, what in ((gen.seq_case, 300, "sequence"), (gen.conc_case, 200, "concurrent callers"), (gen.dist_case, 120, "distribution"), (gen.letters_case, 6, "letters"),
                           (gen.refused_case, 60, "invalid configuration"), (gen.garbage_case, 60, "invalid parameter"), (gen.big_case, 60, "wide range")):
            judge_cases(out, gen, [f(rng) for _ in range(n)], what)


PARTS["C11"] += [gen_part]


def conf_part(out):
    import conf
    rng = random.Random("conf/%d" % out.seed)
    ms, st = conf.matrix()
    out.states += st["distinct"]
    out.transitions += st["generated"]
    judge_cases(out, conf, conf.matrix_cases(ms, rng), "precedence")
    for b in range(1 if out.quick() else 25):
        judge_cases(out, conf, [conf.conf_case(rng) for _ in range(1200)], "configuration")


PARTS["C19"] += [conf_part]


def trxfile_part(out):
    import trxfile
    rng = random.Random("trx/%d" % out.seed)
    ms, st = trxfile.small(2 if out.quick() else 3)
    out.states += st["distinct"]
    out.transitions += st["generated"]
    judge_cases(out, trxfile, [trxfile.small_case(m, rng) for m in ms], "small statement")
    for b in range(2 if out.quick() else 40):
        judge_cases(out, trxfile, [trxfile.trx_case(rng) for _ in range(1200)], "trx files")


PARTS["C20"] += [trxfile_part]


def dsn_part(out):
    import dsn
    rng = random.Random("dsn/%d" % out.seed)
    for r in range(1 if out.quick() else 8):      # the values in the places are random
        ms, st = dsn.matrix()
        if r == 0:
            out.states += st["distinct"]
            out.transitions += st["generated"]
        judge_cases(out, dsn, [dsn.matrix_case(m, rng) for m in ms], "places")
    for b in range(2 if out.quick() else 60):
        judge_cases(out, dsn, [dsn.dsn_case(rng) for _ in range(500)], "connections")


PARTS["C22"] += [dsn_part]

TECH = {
    "C22": "TLA+ specification (Dsn.tla): TLC enumerates where settings are set; TLC judges connections of real finch runs to a scripted MySQL server",
    "C20": "TLA+ specification (TrxFile.tla): TLC enumerates all small statements and judges statements loaded by the real code",
    "C19": "TLA+ specification (Config.tla): TLC enumerates every setting in every combination of places; TLC judges configurations loaded by the real code",
    "C11": "TLA+ specification (Gen.tla): TLC enumerates all histories of copies and calls; TLC judges values recorded from the real generators, sequential and concurrent",
    "C15": "TLA+ specification (Collector.tla): TLC enumerates all arrival histories, checks them and replays each in the real collector; TLC judges recorded reports",
    "C16": "TLA+ specification (Histo.tla): TLC enumerates all operation histories; TLC judges histogram contents, percentiles and reports recorded from the real code",
    "C18": "TLA+ specification (Remote.tla) of a remote instance; TLC trace validation of real finch --client processes against a scripted, faulty server",
    "C17": "TLA+ specification (Compute.tla): TLC model checking of all interleavings, and TLC trace validation of the real server",
}
LEVEL_NOTE = {
    "C22": ("Every combination of places (stage, base file, my.cnf, command line) of credentials, addresses, TLS files, DSNs and databases, and random ones "
            "with special characters, is run by the real program in stages of three clients; address, time limit, TLS (name, certificate), user, password and "
            "database of each connection, and all output, are judged by TLC with Dsn.tla. Where the documentation is silent (e.g. socket and host "
            "set in different files) each choice is accepted. Amazon's real certificates are not checked, only that another server is refused."),
    "C20": ("All statements of up to 2 (thorough: 3) data keys, in and outside CSV templates, prepared or not, copied or not, and random sets of trx files "
            "(modifiers, line breaks, comments, percent signs, saved columns, invalid modifiers and keys) are loaded by the real code and the statements, with "
            "generated values put into their text, compared by TLC with TrxFile.tla. Quoted strings containing @ or empty lines are not generated."),
    "C19": ("Every setting, set in every subset of the places (base file, stage file, command line), literally or by a param set in every subset of places, is "
            "loaded by the real command-line parser and config loader and compared by TLC with Config.tla, as are random configurations of several stages "
            "and directories. Values are texts built from literals, human-readable numbers and references; ambiguous texts (1,2) are not generated."),
    "C11": ("All short histories of copying and calling are replayed in the real generators; random configurations (boundaries, shifted ranges), concurrent callers, "
            "distributions and invalid configurations are judged by TLC with Gen.tla. Distribution bounds are wide enough that chance cannot reach them."),
    "C15": ("All histories of bounded length (e.g. 6 arrivals for 2 instances, 5 for 3) printed by TLC are replayed in stats.Collector and every "
            "report compared by TLC with Collector.tla; reports of whole distributed runs are judged with Dist.tla; plus random longer histories with the end-of-stage wait, and concurrent arrivals."),
    "C16": ("All histories of 3 operations (record, error, combine, copy, reset) over three statistics objects are replayed and the objects compared with "
            "Histo.tla; plus random values (bucket limits, extremes), percentile lists and stdout/CSV reports of several instances."),
    "C18": ("Executions of the real client program with injected faults (lost requests, lost responses, errors, truncated bodies, silence, "
            "stop, lost contact, CTRL-C) are accepted only as behaviours of Remote.tla. Whole distributed runs (real server, 1-3 real clients, "
            "errors, CTRL-C) must be behaviours of Dist.tla and each process's statements of Run.tla; DistMC is model checked with lost requests and responses."),
    "C17": ("Compute.tla is model checked exhaustively for two remotes and bounded numbers of requests (all interleavings, abandoned "
            "requests, CTRL-C, boot test), and executions of the real server with scripted remotes (well-behaved, failing, restarting, "
            "vanishing, out of order, foreign) are accepted only as behaviours of it. Whole distributed runs with real clients are judged with Dist.tla. Remotes are identified by name, as in the code."),
}


def known(pid):
    """[(key, text)] of the recorded, unrepaired findings of this property"""
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3)))
    return r


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    out = Out(pid, tier, seed)
    out.t0 = t0
    try:
        for part in PARTS[pid]:
            part(out)
    except vlib.Broken as e:
        print("check %s could not run: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    cov = dict(states=out.states, transitions=out.transitions, traces_validated_against_impl=out.traces,
               samples=out.samples, evaluations=out.evals, distinct_nontrivial=out.distinct,
               rule="every case is generated from VERIF_SEED; non-trivial: at least two statements or protocol steps were executed and checked",
               counts={k: v for k, v in sorted(out.cov.items())}, notes=out.notes[:20])
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=["the scripted MySQL server behaves like MySQL for the statements used",
                           "conditions are checked on the executions explored, chosen by VERIF_SEED"],
              wall_s=round(time.time() - t0, 2), violations=len(out.violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k, what in known(pid):
        if k in out.known:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for n in out.notes[:10]:
        print("note:", n)
    for name, what, d in out.violations:
        print("  %s: %s" % (name, what))
        if d:
            print("VIOLATION property=%s replay=%s" % (pid, d))
    print("%s %s: %d traces, %d states, %d violations, %.1f s" % (pid, tier, out.traces, out.states, len(out.violations), time.time() - t0))
    return 1 if out.violations else 0
