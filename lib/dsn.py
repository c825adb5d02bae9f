"""C22: connections to MySQL against Dsn.tla."""
import json, random, re
import vlib

SPECNAME = "Dsn.tla"
NAMES = ["db1.example", "db.example", "localhost", "x.rds.amazonaws.com", "127.0.0.1"]
RDS = ["x.rds.amazonaws.com", "y.z.rds.amazonaws.com"]
HOSTS = NAMES[:3] + ["127.0.0.1", "other.example", "db", "10.1.2.3", "rds.example", "rds.amazonaws.com.example"]
IPS = ["127.0.0.1", "10.1.2.3"]
PORTS = ["3307", "33060", "1"]
CLIENTS = 3
DUR = {"10s": 10000, "3s": 3000, "500ms": 500, "0": 0, "1m": 60000, "200ms": 200, "0s": 0, "1.5s": 1500, "120ms": 120}
USERS = ["root", "app", "a:b", "a@b", "x/y", "ü z", "u?v=w", "u(1)", "finch", "per%cent", "o'x", "u&p=1", "a#b", "#u"]
DBS = ["test", "finch", "a/b", "d?x=y", "d-b", "ü", "x)y", "a@b", "tcp(1)/z", "per%20cent", "a&b", "1", "a:b"]
SOCKS = ["/run/mysqld.sock", "/tmp/my(1).sock", "/tmp/a b.sock", "relative.sock", "/x@y/z.sock", "/tmp/ü?.sock", "/t)/s"]
PWS = ["Pq7%sz", "Pq7:%s", "Pq7@%s/x", "Pq7)%s?&=", "Pq7#%s;x", "Pq7ü%s '", "Pq7%s%%41", "Pq7(%s", "Pq7 %s ", "Pq7/%s@tcp(h)/d", "Pq7?%s", "Pq7%s:@"]
MODES = ["", "", "PREFERRED", "REQUIRED", "VERIFY_CA", "VERIFY_IDENTITY", "DISABLED"]
CN = {"{{TLS}}/cn1.pem": "cn1", "{{TLS}}/cn2.pem": "cn2", "{{TLS}}/missing.pem": ""}
GOODCA = "{{TLS}}/ca-a.pem"
EXIST = [GOODCA, "{{TLS}}/ca-b.pem", "{{TLS}}/cn1.pem", "{{TLS}}/cn2.pem"]
# our name -> path in the file
YAML = {"user": "username", "password": "password", "pwfile": "password-file", "socket": "socket", "mycnf": "mycnf", "dsn": "dsn", "db": "db", "timeout": "timeout-connect", "no-auto-tls": "disable-auto-tls"}
TLSY = {"ca": "ca", "cert": "cert", "key": "key", "skip-verify": "skip-verify", "tls-disable": "disable"}
KEY = {"{{TLS}}/cn1.pem": "{{TLS}}/cn1.key", "{{TLS}}/cn2.pem": "{{TLS}}/cn2.key", "{{TLS}}/missing.pem": "{{TLS}}/cn1.key"}


def section(s, ind):
    """the mysql section"""
    o, t = [], []
    for k, v in s.items():
        q = v if v in ("true", "false") and k in ("no-auto-tls", "skip-verify", "tls-disable") else json.dumps(v, ensure_ascii=False)
        if k in ("host", "port"):
            continue
        if k in YAML:
            o.append("%s%s: %s" % (ind, YAML[k], q))
        else:
            t.append("%s  %s: %s" % (ind, TLSY[k], q))
            if k == "cert":
                t.append("%s  key: %s" % (ind, json.dumps(KEY[v])))
    if "host" in s:
        o.append("%shostname: %s" % (ind, json.dumps(s["host"] + (":" + s["port"] if s.get("port") else ""))))
    if t:
        o += [ind + "tls:"] + t
    return o


def mycnf_text(m, rng):
    o = []
    if rng.random() < .4:
        o += ["[mysqld]", "user=decoyuser", "password=decoypw", "socket=/decoy.sock", "port=9", "skip-name-resolve", ""]
    o += ["[client]"] if rng.random() < .9 or True else []
    for k, v in m.items():
        if rng.random() < .2:
            o.append(rng.choice(["# comment", "; comment", "", "loose-x", "default-character-set=utf8"]))
        if re.search(r"[#;'\"` ]|^$", v) or v != v.strip():
            v = '"%s"' % v
        elif k == "ssl-mode" and rng.random() < .3:
            v = v.lower()
        elif rng.random() < .2:
            v = '"%s"' % v
        o.append(k + rng.choice(["=", " = ", "= "]) + v + rng.choice(["", "", " ", "  # not 'this'"]))
        if k == "ssl-cert":
            o.append("ssl-key=" + KEY[m[k]])
    if rng.random() < .4:
        o += ["", "[mysql]", "user = decoyuser", "host = decoy.example", "ssl-ca = /decoy.pem", "no-auto-rehash"]
    return "\n".join(o) + "\n"


def finish(c, rng):
    files = {}
    for k, m in c["mycnf"].items():
        files[k.replace("{{ROOT}}/", "")] = mycnf_text(m, rng)
    for k, v in c["pwfiles"].items():
        files[k.replace("{{ROOT}}/", "")] = v + rng.choice(["", "\n", "\n", "\r\n"])
    if c["base"] or rng.random() < .5:
        b = section(c["base"], "  ")
        files["_all.yaml"] = "\n".join((["mysql:"] + b if b else []) + ["stats:", "  disable: true"]) + "\n"
    argv = []
    for i, s in enumerate(c["stages"]):
        b = section(s, "    ")
        files["s%d.yaml" % i] = "\n".join(["stage:", "  name: s%d" % i] + (["  mysql:"] + b if b else [])
                                          + ["  stats:", "    disable: true", "  trx:", "    - file: t%d.sql" % i,
                                             "  workload:", "    - clients: 1", "      iter: 1", "    - clients: 2", "      iter: 1"]) + "\n"
        files["t%d.sql" % i] = "SELECT 'stage %d'\n" % (i + 1)
        argv.append("s%d.yaml" % i)
    if c["cli"]["dsn"]:
        argv = ["--dsn", c["cli"]["dsn"]] + argv
    if c["cli"]["db"]:
        argv = ["-D", c["cli"]["db"]] + argv
    pws = set()
    for s in c["stages"] + [c["base"]] + list(c["mycnf"].values()):
        pws.add(s.get("password", ""))
    pws |= set(c["pwfiles"].values()) | {d["pw"] for d in c["dsns"].values()} | {"amazing"}
    pws.discard("")
    pws.add("Pq7x")     # in an invalid DSN
    c["passwords"] = sorted(pws)
    cands = c["passwords"] + [p + e for p in c["pwfiles"].values() for e in ("\n", "\r\n")]
    c["h"] = dict(files=files, argv=argv, passwords=cands)
    return c


def new(n):
    return dict(stages=[{} for _ in range(n)], base={}, mycnf={}, pwfiles={}, dsns={}, cli=dict(dsn="", db=""))


class Ids:
    def __init__(self, rng):
        self.rng, self.n = rng, 0

    def pw(self):
        self.n += 1
        return self.rng.choice(PWS) % ("k%02d" % self.n)


def mkdsn(c, rng, ids, db=None):
    user = rng.choice(["root", "app", "x", "ü"])
    pw = rng.choice(["", ids.pw(), ids.pw(), ids.pw()])
    pw = pw if "@tcp" not in pw else ids.pw().replace("/", "-").replace("(", "-")
    net, addr = rng.choice([("tcp", "127.0.0.1:3306"), ("tcp", "db1.example:3307"), ("tcp", "10.1.2.3"), ("unix", "/run/dsn.sock"), ("", "")])
    db = rng.choice(["", "dsndb"]) if db is None else db
    par, tls, sni, timeout = [], "none", "", 0
    if rng.random() < .6:
        par.append("parseTime=true")
    if rng.random() < .3:
        k = rng.choice(["3s", "200ms", "1m"])
        par.append("timeout=" + k)
        timeout = DUR[k]
    if rng.random() < .3 and net == "tcp":
        k = rng.choice(["skip-verify", "true"])
        par.append("tls=" + k)
        h = addr.split(":")[0]
        tls, sni = ("ok", "") if k == "skip-verify" else ("fail", h if h not in IPS else "")
    rng.shuffle(par)
    text = "%s%s@%s/%s%s" % (user, ":" + pw if pw else "", "%s(%s)" % (net, addr) if net else "", db, "?" + "&".join(par) if par else "")
    a = addr or "127.0.0.1:3306"
    c["dsns"][text] = dict(user=user, pw=pw, net=net or "tcp", addr=a if ":" in a or net == "unix" else a + ":3306", db=db, tls=tls, sni=sni, timeout=timeout)
    return text


def some(rng, p, f):
    return rng.random() < p and f or None


def settings(rng, c, ids, p, stage):
    s = {}
    if rng.random() < p:
        s["user"] = rng.choice(USERS)
    if rng.random() < p:
        s["password"] = ids.pw()
    if rng.random() < p * .5:
        f = "{{ROOT}}/pw%d" % ids.n
        if rng.random() < .95:
            c["pwfiles"][f] = ids.pw()
        s["pwfile"] = f
    if rng.random() < p * 1.3:
        s["host"] = rng.choice(HOSTS + ["127.0.0.1"] * 3) if rng.random() < .9 else rng.choice(RDS)
        if rng.random() < .4:
            s["port"] = rng.choice(PORTS)
    if rng.random() < p * .4:
        s["socket"] = rng.choice(SOCKS)
    if rng.random() < p:
        s["db"] = rng.choice(DBS)
    if rng.random() < p * .5:
        s["timeout"] = rng.choice(list(DUR) + ["3s"] * 3) if rng.random() < .93 else rng.choice(["5", "-1s", "fast"])
    if rng.random() < p * .3:
        s["no-auto-tls"] = rng.choice(["true", "false"])
    if rng.random() < p * .6:
        if rng.random() < .9:
            s["ca"] = GOODCA if rng.random() < .88 else rng.choice(["{{TLS}}/ca-b.pem", "{{TLS}}/nofile.pem"])
        if rng.random() < .4:
            s["cert"] = rng.choice(["{{TLS}}/cn1.pem", "{{TLS}}/cn2.pem"]) if rng.random() < .97 else "{{TLS}}/missing.pem"
        if rng.random() < .45:
            s["skip-verify"] = rng.choice(["true", "true", "false"])
        if rng.random() < .15:
            s["tls-disable"] = rng.choice(["true", "false"])
    if rng.random() < p * .15:
        s["dsn"] = mkdsn(c, rng, ids) if rng.random() < .95 else rng.choice(["nodsn", "u:Pq7x@tcp(h", "a@tcp(x/y"])
    if rng.random() < p * .7:
        if c["mycnf"] and rng.random() < .4:
            s["mycnf"] = rng.choice(list(c["mycnf"]))
        else:
            f = "{{ROOT}}/my%d.cnf" % (len(c["mycnf"]) + 1)
            if rng.random() < .97:
                c["mycnf"][f] = mycnf(rng, ids)
            s["mycnf"] = f
    return s


def mycnf(rng, ids):
    m = {}
    if rng.random() < .6:
        m["user"] = rng.choice(USERS)
    if rng.random() < .6:
        m["password"] = ids.pw()
    if rng.random() < .5:
        m["host"] = rng.choice(HOSTS)
    if rng.random() < .4:
        m["port"] = rng.choice(PORTS)
    if rng.random() < .25:
        m["socket"] = rng.choice(SOCKS)
    if rng.random() < .35:
        if rng.random() < .85:
            m["ssl-ca"] = GOODCA if rng.random() < .9 else "{{TLS}}/ca-b.pem"
        if rng.random() < .4 or "ssl-ca" not in m:
            m["ssl-cert"] = rng.choice(["{{TLS}}/cn1.pem", "{{TLS}}/cn2.pem"])
        mode = rng.choice(MODES)
        if mode:
            m["ssl-mode"] = mode
    elif rng.random() < .2:
        m["ssl-mode"] = rng.choice(["DISABLED", "PREFERRED"])
    m = list(m.items())
    rng.shuffle(m)
    return dict(m)


def dsn_case(rng):
    ids = Ids(rng)
    c = new(rng.choice([1, 2, 2, 3]))
    p = rng.choice([.15, .35, .55])
    c["base"] = settings(rng, c, ids, p, False)
    for i in range(len(c["stages"])):
        c["stages"][i] = settings(rng, c, ids, p, True)
        if i and rng.random() < .15:
            c["stages"][i] = dict(c["stages"][i - 1])
    if rng.random() < .1:
        c["cli"]["dsn"] = mkdsn(c, rng, ids)
    if rng.random() < .2:
        c["cli"]["db"] = rng.choice(DBS)
    return finish(c, rng)


# ---------------------------------------------------------------- all combinations of places
def matrix():
    rc, out, st = vlib.tlc("DsnMC", cfgtext="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", workers=1)
    if rc != 0:
        raise vlib.Broken("DsnMC: " + out[-2000:])
    r = []
    for m in re.findall(r'<<\s*"CASE",\s*"(\w+)",\s*\[(.*?)\],\s*\[(.*?)\],\s*\[(.*?)\],\s*\[(.*?)\]\s*>>', out, re.S):
        r.append((m[0], [sorted(re.findall(r"(\w+) \|-> TRUE", x)) for x in m[1:]]))
    if len(r) != 256 + 128 + 512 + 128:
        raise vlib.Broken("DsnMC: %d cases" % len(r))
    return sorted(r), st


def matrix_case(m, rng):
    g, (a, b, cc, d) = m
    ids = Ids(rng)
    c = new(2)
    my = {}
    where = dict(stage=c["stages"][0], base=c["base"], mycnf=my)
    if g == "cred":
        for x in a:
            where[x]["user"] = "user-" + x
        for x in b:
            where[x]["password"] = ids.pw()
        for x in cc:
            c["pwfiles"]["{{ROOT}}/pw-" + x] = ids.pw()
            where[x]["pwfile"] = "{{ROOT}}/pw-" + x
    elif g == "addr":
        for x in a:
            where[x]["host"] = "h-%s.example" % x
        for x in b:
            where[x]["socket"] = "/run/%s.sock" % x
        if cc:
            my["port"] = "3333"
    elif g == "tls":
        where["base"]["host"] = "db1.example"
        for x in a:
            where[x]["ssl-ca" if x == "mycnf" else "ca"] = GOODCA if x != sorted(a)[0] or len(a) == 1 or rng.random() < .8 else "{{TLS}}/ca-b.pem"
        for x in b:
            where[x]["ssl-cert" if x == "mycnf" else "cert"] = "{{TLS}}/cn1.pem" if x != "stage" else "{{TLS}}/cn2.pem"
        for x in cc:
            where[x]["tls-disable"] = rng.choice(["true", "false"])
        if d:
            where["stage"]["skip-verify"] = "true"
        if ("mycnf" in a or "mycnf" in b) and rng.random() < .7:
            my["ssl-mode"] = rng.choice(["DISABLED", "REQUIRED", "VERIFY_IDENTITY", "PREFERRED"])
        if not a:      # no CA: only without verification
            where["base"]["skip-verify"] = "true"
    else:
        for x in a:
            t = mkdsn(c, rng, ids, "dsn-" + x)
            if x == "cli":
                c["cli"]["dsn"] = t
            else:
                where[x]["dsn"] = t
        for x in b:
            if x == "cli":
                c["cli"]["db"] = "db-cli"
            else:
                where[x]["db"] = "db-" + x
        if cc:
            my.update(user="myuser", password=ids.pw(), host="my.example")
    if my:
        c["mycnf"]["{{ROOT}}/my.cnf"] = my
        rng.choice([c["base"], c["base"], c["stages"][0]])["mycnf"] = "{{ROOT}}/my.cnf"
    if rng.random() < .3:
        c["stages"].reverse()
    return finish(c, rng)


# ---------------------------------------------------------------- run and judge
def run(cases):
    r = vlib.harness("dsn", inp=json.dumps([c["h"] for c in cases]), timeout=800)
    if r.returncode != 0:
        raise vlib.Broken("dsn harness: " + r.stderr[-2000:])
    out = []
    for c, o in zip(cases, json.loads(r.stdout)):
        conns, lost = {}, []
        for e in o["events"]:
            if e["e"] == "held":
                continue
            k = e["c"]
            if e["e"] == "dial":
                conns[k] = dict(net=e["net"], addr=e["addr"], ms=e["ms"], tls="none", sni="", cert="", user="", pw="", db="", use=[], stages=[])
            elif e["e"] == "tlsfail":
                conns[k].update(tls="fail", sni=e["sni"])
            elif e["e"] == "open":
                conns[k].update(tls="ok" if e["tls"] else "none", sni=e["sni"], cert=e["cert"], user=e["user"], pw=e["pw"], db=e["db"])
            elif e["e"] == "q":
                m = re.match(r"SELECT 'stage (\d+)'$", e["text"])
                if e["text"].startswith("USE "):
                    conns[k]["use"].append(e["text"][4:].strip("`"))
                    continue
                n = int(m.group(1)) if m else 99
                if n not in conns[k]["stages"]:
                    conns[k]["stages"].append(n)
        out.append(dict(c, r=dict(conns=[conns[k] for k in sorted(conns)], rc=o["rc"], output=o["output"])))
    return out, ""


def adapt(c):
    o = c["r"]["output"]
    lines = [l for l in o.splitlines() if any(p[:4] in l for p in c["passwords"])]
    z = lambda d: dict(d, _="")
    return dict(stages=[z(s) for s in c["stages"]], base=z(c["base"]), mycnf={k: z(m) for k, m in list(c["mycnf"].items()) + [("_", {})]}, pwfiles=z(c["pwfiles"]),
                dsns=dict(c["dsns"], _=dict(timeout=0)), cli=c["cli"], ips=IPS, rds=RDS, names=NAMES, exist=EXIST, cn=CN, goodca=GOODCA, durations=DUR, clients=CLIENTS,
                passwords=c["passwords"], conns=c["r"]["conns"], rc=c["r"]["rc"], output="\n".join(lines), panic="panic: " in o or "goroutine 1" in o)


def check(cases):
    return vlib.judge("DsnTrace", cases, lambda cs: [adapt(c) for c in cs])
