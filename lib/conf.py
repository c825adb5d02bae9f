"""C19: configurations against Config.tla."""
import json, os, random, re
import vlib

SPECNAME = "Config.tla"
CPUS = None
HUMAN = [("1k", "1000"), ("1,000", "1000"), ("2,500", "2500"), ("10K", "10000"), ("3KB", "3000"), ("1KiB", "1024"), ("2M", "2000000"), ("1.5k", "1500"), ("12,345,678", "12345678"),
         ("4MiB", "4194304"), ("1kb", "1000"), ("2kib", "2048")]
HUMANBIG = HUMAN + [("1G", "1000000000"), ("1GiB", "1073741824"), ("7GB", "7000000000")]


def lit(s):
    return [dict(t="lit", v=s)] if s != "" else []


def num(h):
    return [dict(t="num", w=h[0], v=h[1])]


def par(k):
    return [dict(t="par", k=k)]


def env(k):
    return [dict(t="env", k=k)]


def sysv(k):
    return [dict(t="sys", k=k)]


# ---------------------------------------------------------------- rendering
def text(v, rng):
    """the text a user would write for the parts v"""
    s = ""
    for x in reversed(v):
        if x["t"] == "lit":
            s = x["v"] + s
        elif x["t"] == "num":
            s = x["w"] + s
        else:
            n = dict(par="params.", sys="sys.", env="")[x["t"]] + x["k"]
            if (s == "" or s[0] in " \t\"'${}") and rng.random() < .6:
                s = "$" + n + s
            else:
                s = "${" + n + "}" + s
    return s


PLAIN = re.compile(r"^[A-Za-z0-9/$][A-Za-z0-9/._$-]*$")


def scalar(s, rng):
    k = rng.random()
    if PLAIN.match(s) and s.lower() not in ("true", "false", "null", "yes", "no", "on", "off", "y", "n") and k < .4:
        return s
    if "'" not in s and k < .6:
        return "'" + s + "'"
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def tree(settings, rng):
    """settings [p, v] -> nested dicts, lists for trx and workload"""
    r = {}
    for x in settings:
        p, v = list(x["p"]), x["v"]
        s = text(v, rng)
        bools = len(v) == 1 and v[0]["t"] == "lit" and s in ("true", "false")
        leaf = s if bools and isbool(p) else scalar(s, rng)
        if p[0] == "tls":
            p = ["mysql"] + p
        if p[0] == "report":
            p = ["stats"] + p
        d = r
        if p[:2] == ["stats", "report"] and len(p) == 3:
            d.setdefault("stats", {}).setdefault("report", {}).setdefault(p[2], {})
            continue
        for k in p[:-1]:
            d = d.setdefault(k, {})
        d[p[-1]] = leaf
    return r


def isbool(p):
    return tuple(p) in {("disable",), ("compute", "disable-local"), ("mysql", "disable-auto-tls"), ("tls", "skip-verify"), ("tls", "disable"), ("stats", "disable")} \
        or p[-1] == "disable-stats"


def yaml(d, rng, ind=0, key=""):
    o = ""
    ks = list(d)
    if key in ("trx", "workload"):
        for k in sorted(ks, key=int):
            v = d[k]
            if isinstance(v, dict):
                b = yaml(v, rng, ind + 2)
                o += " " * ind + "- " + b[ind + 2:]
            else:
                o += " " * ind + "- " + v + "\n"
        return o
    rng.shuffle(ks)
    for k in ks:
        v = d[k]
        if isinstance(v, dict):
            if v:
                o += " " * ind + k + ":\n" + yaml(v, rng, ind + 2, k)
            else:
                o += " " * ind + k + ":" + rng.choice([" {}", ""]) + "\n"
        else:
            o += " " * ind + k + ": " + v + "\n"
    return o


def finish(c, rng):
    """add what the harness needs"""
    files, args = {}, []
    for d, b in c["dirs"].items():
        files[os.path.join(d, "_all.yaml")] = yaml(tree(b, rng), rng) or "params: {}\n"
    for d, fs in c["files"].items():
        for f in fs:
            files[os.path.join(d, f)] = "SELECT 1\n"
    for s in c["stages"]:
        files[s["abs"]] = "stage:\n" + yaml(tree(s["set"], rng), rng, 2)
        args.append(rng.choice(["", "", "./", "@/"]) + s["abs"])
    opts = [("--param", x["k"] + "=" + text(x["v"], rng)) for x in c["cli"]["params"]] + [("--param", x) for x in c.pop("junk", [])]
    e = {k: text(v, rng) for k, v in c["env"].items()}
    for k, o, ev in (("dsn", "--dsn", "FINCH_DSN"), ("db", "--database", "FINCH_DB")):
        if c["cli"][k]:
            opts.insert(rng.randrange(len(opts) + 1), (o, text(c["cli"][k], rng)))
        if c["cli"]["e" + k]:
            e[ev] = text(c["cli"]["e" + k], rng)
    # options anywhere, stage files and params in order
    argv, fs = ["finch"], list(args)
    while opts or fs:
        if fs and (not opts or rng.random() < .5):
            argv.append(fs.pop(0))
        else:
            o, v = opts.pop(0)
            k = rng.random()
            if k < .4 and not v.startswith("-"):
                argv += [{"--param": "-p", "--database": "-D"}.get(o, o) if k < .2 else o, v]
            else:
                argv.append(o + "=" + v)
    c["h"] = dict(files=files, argv=argv, env=e)
    return c


# ---------------------------------------------------------------- random configurations
INTP = ["n", "n1", "n10", "rows", "row", "rows.max", "clients-n"]
TXTP = ["x", "xy", "xyz", "foo", "foo.bar", "d", "Params"]
WORDS = ["a", "abc", "db1", "10ms", "d2b", "10.0.0.1", "x-1k", "1k-x", "v1.2", "k8s", "user_1k", "host-2", "10KBx", "-", "/tmp/s.sock", "a=b", "a,b", "p@ss:w0rd", "50%", "1e3", "#x", "é", "5k5", "1,000rows", "x1,000", "2x4k", "1k_", "v1k", "1k.txt"]
GEN = ["int", "int-range", "str-fill-az", "xid", "my-gen", "column"]
SCOPES = ["global", "stage", "workload", "exec-group", "client-group", "client", "iter", "trx", "statement", "row", "value"]
ENVI = {"VF_N": num(("5k", "5000")), "VF_NN": lit("77")}
ENVT = {"VF_A": lit("envA"), "VF_AB": lit("env AB"), "VF_EMPTY": [], "VF_REFLIKE": lit("x y")}


def ival(rng, refs=True, bad=.005):
    r = rng.random()
    if r < bad:
        return rng.choice([lit("ten"), lit("-1"), lit("1.5"), lit("5x"), lit("4294967296"), par("undef"), lit("99999999999"), par("x")])
    if not refs or r < .45:
        return rng.choice([lit(str(rng.choice([1, 2, 7, 16, 100, 4294967295]))), num(rng.choice(HUMAN))])
    return rng.choice([par(rng.choice(INTP)), par(rng.choice(INTP)), env(rng.choice(list(ENVI))), sysv("CPU_CORES")])


def word(rng):
    return lit(rng.choice(WORDS))


def tval(rng, bad=.002, n=None):
    """text, possibly with references and standalone numbers"""
    r = rng.random()
    if r < bad:
        return rng.choice([par("undef"), env("VF_UNDEF"), sysv("NOPE"), lit("x") + par("xyzz")])
    v, prev = [], "sep"
    for _ in range(n or rng.choice([1, 1, 1, 2, 2, 3, 4])):
        k = rng.random()
        if k < .45:
            v += word(rng)
        elif k < .75:
            v += par(rng.choice(TXTP + INTP[:2]))
        elif k < .87:
            v += env(rng.choice(list(ENVT)))
        elif k < .9:
            v += sysv("CPU_CORES")
        else:
            # human numbers only as separate words
            if v:
                v += lit(" ")
            v += num(rng.choice(HUMANBIG)) + lit(" ")
            continue
        if rng.random() < .4:
            v += lit(rng.choice(["/", "-", " ", "_", ":", ".", "'"]))
    return settle(v)


def settle(v):
    """two literals that form one word must not look like a human-readable number"""
    return v


def dval(rng, bad=.01):
    r = rng.random()
    if r < bad:
        return rng.choice([lit("10"), lit("5 s"), lit("-1s"), lit("abc"), lit("1d"), par("undef"), lit("s"), lit("1.s2"), lit(".s")])
    if r < bad + .01:
        return lit(rng.choice(["0s", "0", "0h0m"]))
    return rng.choice([lit("10s"), lit("1m30s"), lit("1.5h"), lit("500ms"), par("dur"), lit("1") + par("unit"), lit("+3us"), lit("12ns"), lit("2.s")])


def cli(v):
    """the command line DSN and database are literal here"""
    return [x for x in v if x["t"] == "lit" and "$" not in x["v"]]


def params(rng, files, f):
    """settings params.*; each name keeps its type"""
    out = []
    for k in INTP:
        if rng.random() < f:
            out.append((k, ival(rng, bad=.0007)))
    for k in TXTP:
        if rng.random() < f:
            out.append((k, [] if rng.random() < .05 else tval(rng, bad=.0007, n=rng.choice([1, 1, 2]))))
    return out


def fixed():
    return [("dur", lit("30s")), ("unit", lit("h")), ("sc", lit("trx")), ("dir", lit("sub")), ("tn", lit("t3"))]


def acyclic(defs):
    """drop references that make cycles, most of the time (cycles must be refused)"""
    return defs


def base_settings(rng):
    s = []
    for k in ["db", "dsn", "hostname", "mycnf", "password", "password-file", "socket", "timeout-connect", "username"]:
        if rng.random() < .25:
            s.append((["mysql", k], [] if rng.random() < .08 else tval(rng)))
    for k in ["ca", "cert", "key"]:
        if rng.random() < .15:
            s.append((["tls", k], tval(rng)))
    for p in (["mysql", "disable-auto-tls"], ["tls", "skip-verify"], ["tls", "disable"], ["stats", "disable"]):
        if rng.random() < .25:
            s.append((p, lit(rng.choice(["true", "false"]))))
    if rng.random() < .35:
        s.append((["stats", "freq"], dval(rng)))
    if rng.random() < .35:
        for r in rng.sample(["stdout", "csv", "other"], rng.choice([1, 1, 2])):
            s.append((["report", r], []))
            for k in rng.sample(["file", "percentiles", "each-instance", "combined"], rng.choice([0, 1, 2])):
                s.append((["report", r, k], [] if rng.random() < .05 else tval(rng)))
    return s


def stage_settings(rng, files):
    s = base_settings(rng)
    if rng.random() < .4:
        s.append((["name"], tval(rng)))
    if rng.random() < .03:
        s.append((["disable"], lit(rng.choice(["true", "false"]))))
    for k in ("qps", "tps"):
        if rng.random() < .25:
            s.append(([k], ival(rng)))
    if rng.random() < .3:
        s.append((["runtime"], dval(rng)))
    if rng.random() < .3:
        s.append((["compute", "instances"], rng.choice([lit("0"), ival(rng), ival(rng), lit("2")])))
    if rng.random() < .15:
        s.append((["compute", "disable-local"], lit(rng.choice(["true", "false"]))))
    # trx
    names, nt, keyscope = [], rng.choice([1, 1, 2, 3]), {}
    if rng.random() < .01:
        nt = 0
    pick = rng.sample(files, min(nt, len(files)))
    for i, f in enumerate(pick):
        t = ["trx", str(i + 1)]
        w = lit(f)
        if f.startswith("sub/") and rng.random() < .5:
            w = par("dir") + lit(f[3:])
        if rng.random() < .006:
            w = lit("nofile.sql")
        s.append((t + ["file"], w))
        nm = os.path.basename(f)
        if rng.random() < .4:
            nm = "trx%d" % i
            s.append((t + ["name"], lit(nm)))
        names.append(nm)
        for k in rng.sample(["d", "id", "n", "col"], rng.choice([0, 0, 1, 2])):
            d = t + ["data", k]
            if rng.random() > .005:
                s.append((d + ["generator"], lit(rng.choice(GEN)) if rng.random() < .8 else tval(rng)))
            sc = keyscope.setdefault(k, rng.choice(SCOPES + [""] * 4))
            if rng.random() < .02:      # not the scope of the same key in another trx
                sc = rng.choice([x for x in SCOPES if x not in ("trx", "statement")])
            if rng.random() < .006:
                sc = rng.choice(["Trx", "session", "row "])
            if sc or rng.random() < .3:
                s.append((d + ["scope"], par("sc") if sc == "trx" and rng.random() < .5 else lit(sc)))
            if rng.random() < .2:
                s.append((d + ["name"], tval(rng)))
            for p in rng.sample(["min", "max", "size", "q", "dist"], rng.choice([0, 1, 2])):
                s.append((d + ["params", p], rng.choice([ival(rng, bad=.005), tval(rng), num(rng.choice(HUMANBIG))])))
    # workload
    mode = rng.random()
    group = ""
    for i in range(rng.choice([0, 1, 1, 2, 3])):
        w = ["workload", str(i + 1)]
        n0 = len(s)
        for k in ["clients", "iter", "iter-clients", "iter-exec-group", "qps", "qps-clients", "qps-exec-group", "tps", "tps-clients", "tps-exec-group"]:
            if rng.random() < .25:
                s.append((w + [k], [] if rng.random() < .05 else ival(rng)))
        if rng.random() < .3:
            s.append((w + ["db"], tval(rng)))
        if rng.random() < .25:
            s.append((w + ["runtime"], dval(rng)))
        if rng.random() < .2:
            s.append((w + ["disable-stats"], lit(rng.choice(["true", "false"]))))
        if rng.random() < .6:
            group = rng.choice([group or "g1", "g1", "g2", "g%d" % i]) if rng.random() < .04 else rng.choice([group or "g0", "g%d" % i])
            s.append((w + ["group"], lit(group) if rng.random() < .8 else lit(group[:1]) + lit(group[1:])))
        if names and (mode < .5 or (mode < .52 and i == 0)):
            for j in range(rng.choice([1, 1, 2])):
                s.append((w + ["trx", str(j + 1)], lit(rng.choice(names) if rng.random() > .01 else "t9.sql")))
        if len(s) == n0 or all(v == [] for _, v in s[n0:]):
            s.append((w + ["clients"], lit("3")))
    return s


TYPES = {"qps", "tps"}
JUNK = [["nmae"], ["mysql", "user"], ["stats", "frequency"], ["workload", "1", "qps-client"], ["parameters", "x"], ["compute", "instance"], ["trx", "1", "dta"]]
BASEJUNK = [["name"], ["mysql", "user"], ["workload", "1", "clients"], ["stage", "name"], ["tls", "x"]]


def sets(l):
    return [dict(p=p, v=v) for p, v in l]


def conf_case(rng):
    dirs = rng.sample(["", "d1", "d1/d2", "d3", "d3/d1"], rng.choice([1, 1, 2]))
    c = dict(dirs={}, files={}, stages=[], env=dict(ENVI, **ENVT), cli=dict(params=[], dsn=[], db=[], edsn=[], edb=[]))
    # a third of the cases define all params, so that most references are defined; the rest define few and refer rarely
    full = rng.random() < .85
    cliset = params(rng, None, .12)
    rng.shuffle(cliset)
    for d in dirs:
        fs = ["t1.sql", "t2.sql", "sub/t3.sql", "t4"] + (["sub/t1.sql"] if rng.random() < .3 else [])
        c["files"][d] = rng.sample(fs, rng.choice([2, 3, 4]))
        if full or rng.random() < .7:
            b = base_settings(rng) + [(["params", k], v) for k, v in params(rng, None, .8 if full else .3) + fixed()]
            if rng.random() < .01:
                b.append((rng.choice(BASEJUNK), lit("x")))
            c["dirs"][d] = sets(b)
    for n in range(rng.choice([1, 1, 2, 3])):
        d = rng.choice(dirs)
        if n and rng.random() < .08:
            c["stages"].append(dict(rng.choice(c["stages"])))
            continue
        s = stage_settings(rng, c["files"][d])
        s += [(["params", k], v) for k, v in params(rng, None, 0 if full and rng.random() < .3 else .2) + [x for x in fixed() if d not in c["dirs"] or rng.random() < .1]]
        if rng.random() < .01:
            s.append((rng.choice(JUNK), lit("x")))
        name = "s%d.yaml" % n
        c["stages"].append(dict(dir=d, file=name, abs=os.path.join(d, name), set=sets(s)))
    if full:
        # whatever is referenced anywhere is defined on the command line, except for some
        have = [set(x["p"][1] for x in c["dirs"].get(s["dir"], []) + s["set"] if x["p"][0] == "params") for s in c["stages"]]
        must = [k for k in INTP + TXTP if any(k not in h for h in have)]
        given = {k for k, _ in cliset}
        for k in must:
            if k not in given and rng.random() < .999:
                cliset.append((k, lit(str(rng.randrange(1, 99))) if k in INTP else lit("v" + k)))
    c["cli"]["params"] = [dict(k=k, v=v) for k, v in cliset]
    if rng.random() < .1 and cliset:
        c["cli"]["params"].append(dict(k=cliset[0][0], v=lit("12")))
    if rng.random() < .1:
        c["junk"] = ["nothing"]
    if rng.random() < .2:
        c["cli"]["dsn"] = lit("u:p@tcp(h:1)/d")
    if rng.random() < .25:
        c["cli"]["db"] = lit("clidb")
    if rng.random() < .15:
        c["cli"]["edsn"] = lit("env:p@tcp(h:2)/d")
    if rng.random() < .15:
        c["cli"]["edb"] = lit("envdb")
    uncycle(c, rng)
    return finish(c, rng)


def refs(v):
    return [x["k"] for x in v if x["t"] == "par"]


def uncycle(c, rng):
    """most cases: make param definitions acyclic by replacing references to params
    later in a fixed order (references only go to earlier names)"""
    if rng.random() < .02:
        return
    order = {k: i for i, k in enumerate(["dur", "unit", "sc", "dir", "tn"] + rng.sample(INTP, len(INTP)) + rng.sample(TXTP, len(TXTP)))}

    def fix(k, v):
        return [x if x["t"] != "par" or order.get(x["k"], 99) < order.get(k, 0) else dict(t="lit", v="5" if k in INTP else "z") for x in v]
    for l in list(c["dirs"].values()) + [s["set"] for s in c["stages"]]:
        for x in l:
            if x["p"][0] == "params":
                x["v"] = fix(x["p"][1], x["v"])
    for x in c["cli"]["params"]:
        x["v"] = fix(x["k"], x["v"])


# ---------------------------------------------------------------- every setting in every combination of places
def matrix():
    rc, out, st = vlib.tlc("ConfigMC", cfgtext="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", workers=1)
    if rc != 0:
        raise vlib.Broken("ConfigMC: " + out[-2000:])
    ms = []
    for m in re.findall(r'<<\s*"CASE",\s*<<([^>]*)>>,\s*\[([^\]]*)\],\s*(TRUE|FALSE),\s*\[([^\]]*)\]\s*>>', out):
        pl = lambda t: {k for k, b in re.findall(r"(\w+) \|-> (TRUE|FALSE)", t) if b == "TRUE"}
        ms.append((re.findall(r'"([^"]*)"', m[0]), pl(m[1]), m[2] == "TRUE", pl(m[3])))
    return ms, st


def matrix_cases(ms, rng):
    """the case; what the second stage sets and the order matter for params"""
    return [matrix_case(m, rng, q, rev) for m in ms for q, rev in
            ([(q, rev) for q in (0, 1) for rev in (0, 1)] if m[0][0] == "params" else [(rng.random() < .5, rng.random() < .3)])]


def matrix_case(m, rng, second, rev):
    path, at, ref, pat = m
    c = dict(dirs={"d": []}, files={"d": ["t.sql"]}, stages=[], env={}, cli=dict(params=[], dsn=[], db=[], edsn=[], edb=[]))
    last = path[-1]
    isint = last in ("qps", "tps", "instances") or (path[0] == "workload" and last not in ("db", "group", "runtime", "disable-stats", "1"))

    def typed(place):
        """a value of the setting's type, different in every place"""
        k = ["base", "stage", "cli"].index(place)
        if isbool(path):
            return lit("true" if (k + len(at)) % 2 else "false")
        if isint:
            return num(HUMAN[k])
        if last in ("freq", "runtime"):
            return lit("%ds" % (k + 1))
        if last == "scope":
            return lit(SCOPES[k])
        if path[:2] == ["trx", "1"] and last == "name" and len(path) == 3 or path[-2:] == ["trx", "1"]:
            return lit("t.sql")
        return lit("val%d" % k)
    where = dict(base=c["dirs"]["d"], stage=[])
    mk = lambda p, v: dict(p=p, v=v)
    if path[0] == "workload" and last != "clients":
        where["stage"].append(mk(["workload", "1", "clients"], lit("2")))
    if path[:2] == ["trx", "1"] and len(path) > 3:
        if last != "generator":
            where["stage"].append(mk(["trx", "1", "data", "d", "generator"], lit("int")))
    where["stage"].append(mk(["trx", "1", "file"], lit("t.sql")))
    for place in sorted(at):
        v = par("q") if ref else typed(place)
        if place == "cli":
            if path[0] == "params":
                c["cli"]["params"].append(dict(k=path[1], v=v))
            else:
                v = typed(place)
                c["cli"]["dsn" if last == "dsn" else "db"] = v
        else:
            where[place].append(mk(path, v))
            if path[0] == "report":
                where[place].append(mk(path[:2], []))
    for place in sorted(pat):
        if place == "cli":
            c["cli"]["params"].append(dict(k="q", v=typed(place)))
        else:
            where[place].append(mk(["params", "q"], typed(place)))
    c["stages"] = [dict(dir="d", file="s1.yaml", abs="d/s1.yaml", set=where["stage"]),
                   dict(dir="d", file="s2.yaml", abs="d/s2.yaml", set=[mk(["trx", "1", "file"], lit("t.sql"))] + ([mk(["params", "q"], typed("cli"))] if second else []))]
    if rev:
        c["stages"].reverse()
    return finish(c, rng)


# ---------------------------------------------------------------- run and judge
def run(cases):
    r = vlib.harness("config", inp=json.dumps([c["h"] for c in cases]), timeout=600)
    if r.returncode != 0:
        if "panic" in r.stderr or "fatal error" in r.stderr:
            return None, r.stderr[-3000:]
        raise vlib.Broken("config harness: " + r.stderr[-2000:])
    out = []
    for c, o in zip(cases, json.loads(r.stdout)):
        out.append(dict(c, r=dict(err=o["err"], panic=o["panic"], cwd=o["cwd"], out=o["out"] or [])))
    return out, ""


def adapt(c):
    return dict(dirs=dict(c["dirs"], _=[]), files=c["files"], env=dict(c["env"], _=[]), cli=c["cli"], stages=c["stages"], cpus=str(os.cpu_count()),
                err=bool(c["r"]["err"]), panic=bool(c["r"]["panic"]), cwd=c["r"]["cwd"], out=c["r"]["out"])


def check(cases):
    return vlib.judge("ConfigTrace", cases, lambda cs: [adapt(c) for c in cs])
