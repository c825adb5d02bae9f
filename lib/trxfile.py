"""C20: trx files against TrxFile.tla."""
import json, os, random, re
import vlib

SPECNAME = "TrxFile.tla"
SCOPES = ["global", "stage", "workload", "exec-group", "client-group", "client", "iter", "trx", "statement", "row", "value"]
NAMES = ["@d", "@d2", "@d_1", "@d-x", "@id", "@i", "@_x", "@D", "@dd", "@a1"]
COLS = ["@c", "@c2", "@c_id", "@col", "@i-d"]
GENS = {"int": ("7000", False, {}), "auto-inc": ("7000", False, {}), "int-range": ("7000", False, {}), "int-range-seq": ("7000", False, {}), "int-gaps": ("7000", False, {}),
        "client-id": ("7000", False, {}), "str-fill-az": ("s", True, {"len": "5"}), "xid": ("s", True, {})}


def lit(s):
    return [dict(t="lit", v=s)]


def key(k, call=False):
    return [dict(t="key", k=k, call=call)]


def cfg(gen, scope=""):
    p, q, params = GENS[gen]
    return dict(gen=gen, scope=scope, params=params, quoted=q, plain=p)


def col(quote, scope=""):
    return dict(gen="column", scope=scope, params={"quote-value": "yes" if quote else "no"}, quoted=quote, plain="s")


def merge(ps):
    o = []
    for p in ps:
        if o and p["t"] == "lit" and o[-1]["t"] == "lit":
            o[-1] = dict(t="lit", v=o[-1]["v"] + p["v"])
        else:
            o.append(p)
    return o


# ---------------------------------------------------------------- rendering
def sql(ps, rng):
    s = ""
    for x in ps:
        if x["t"] == "lit":
            s += x["v"]
        elif x["t"] == "pct":
            s += "%" * x["n"]
        elif x["t"] == "copyno":
            s += "/*!copy-number*/"
        elif x["t"] == "key":
            s += x["k"] + ("()" if x["call"] else "")
        else:
            s += "/*!csv %d%s%s*/" % (x["n"], " ", sql(x["ps"], rng))
    return s


def breaks(s, rng, p):
    """the same statement over several lines"""
    o = ""
    for i, ch in enumerate(s):
        if ch == " " and rng.random() < p and o.strip() and not s[i + 1:].startswith("-") and s[i + 1:i + 2] not in (" ", "") and not o.endswith(" "):
            o += rng.choice(["\n", " \n", "\n    ", "\r\n", "\n\t"])
        else:
            o += ch
    return o


def modtext(m, rng, params):
    def n(v, human=True):
        k = rng.random()
        if k < .3:
            name = rng.choice(["n", "nn", "n.x", "rows"]) + str(len(params))
            params[name] = str(v)
            return rng.choice(["$params." + name, "${params." + name + "}"])
        if k < .6 and v >= 1000 and v % 1000 == 0:
            return rng.choice([str(v // 1000) + "k", "{:,}".format(v), str(v // 1000) + "KB"])
        return str(v)
    k = m["m"]
    if k == "prepare":
        return rng.choice(["prepare", "prepared"])
    if k == "idle":
        u = {60000: ["1m", "60s", "1m0s"], 1500: ["1.5s", "1500ms"], 5: ["5ms"], 2: ["2ms", "2000us"], 3600000: ["1h"], 0: ["0s", "0ms"], 120000: ["2m"]}
        return "idle: " + rng.choice(u[m["ms"]])
    if k == "rows":
        return "rows: " + n(rng.choice([1, 10, 1000, 50000]))
    if k == "size":
        return rng.choice(["table-size: t 100MB", "table-size: db.t 5.1GB", "database-size: d1 2TB", "table-size: t 1000", "database-size: d_2 1GiB"])
    if k == "insertid":
        return "save-insert-id: " + m["k"]
    if k == "columns":
        return "save-columns: " + rng.choice([", ", ",", " ", " , "]).join(m["ks"])
    if k == "copies":
        return "copies: " + n(m["n"])
    return m["text"]


BAD = ["unknown: x", "idle", "idle:", "idle: 5", "idle: abc", "rows: x", "rows:", "rows", "rows: -1", "copies: two", "copies:", "copies: 1.5", "table-size: t", "table-size: 100MB",
       "table-size: t 1 MB", "table-size: t big", "database-size 5GB", "save-columns:", "save-columns", "save-insert-id:", "rows: $params.undef", "rows: ${params.undef}", "save-result: @c", "preparee",
       "this is a comment", "copy: 2"]


def filetext(blocks, rng, params):
    t = rng.choice(["", "", "\n", "\n\n  \n"])
    for i, b in enumerate(blocks):
        if i:
            t += rng.choice(["\n", "\n\n", "\n \t\n", "\r\n"])
        ind = rng.choice(["", "", "  "])
        for m in b["mods"]:
            t += ind + "-- " + rng.choice(["", "", " "]) + modtext(m, rng, params) + rng.choice(["", "", " "]) + "\n"
        t += ind + breaks(sql(b["parts"], rng), rng, rng.choice([0, .1, .5])) + "\n"
    k = rng.random()
    if k < .2:
        t = t.rstrip("\n")
    elif k < .3:
        t += "\n\n"
    elif k < .45:
        t += rng.choice(["", "\n"]) + "-- EOF\n\n-- nonsense\nSELECT @undefined\n"
    return t


def finish(c, rng):
    params = dict(c.pop("params", {}))
    c["h"] = dict(files=[dict(name=f["name"], path=f["path"], text=filetext(f["blocks"], rng, params)) for f in c["files"]], data=c["data"], params=params)
    c["h"]["params"] = params
    return c


# ---------------------------------------------------------------- random files
WORDS = ["SELECT", "select", "Select", "INSERT", "insert", "UPDATE", "DELETE", "REPLACE", "replace", "BEGIN", "begin", "START", "start", "COMMIT", "commit", "ROLLBACK", "ALTER", "CREATE", "create",
         "DROP", "RENAME", "TRUNCATE", "SET", "SHOW", "WITH", "CALL", "SELECTED", "BEGINS", "CREATED", "DELETES", "EXPLAIN", "INSERT_x", "GRANT", "", "STARTS", "UPSERT", "OPTIMIZE"]


def parts(rng, keys, csv=True, prob=.6):
    ps = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        k = rng.random()
        if k < prob and keys:
            ps += lit(rng.choice([" ", "=", "(", " ('", "id > "]))
            ps += key(rng.choice(keys), rng.random() < .2)
            ps += lit(rng.choice([" ", ")", "') ", ", ", ";", " + 1 "]))
        elif k < prob + .08:
            ps += lit("LIKE 'x") + [dict(t="pct", n=rng.choice([1, 1, 2]))] + lit(rng.choice(["'", "y", "d", " 5", "s"]))
        elif csv and k < prob + .2:
            t = parts(rng, keys, False, .8)
            t = lit("(") + t + lit(")")
            ps += lit(" ") + [dict(t="csv", n=rng.choice([1, 2, 3]), ps=merge(t))] + lit(rng.choice(["", " ", " ON DUPLICATE"]))
        else:
            ps += lit(rng.choice(([] if not csv else [" /* c */", " /*+ h */"]) + [" a", " FROM t", " 'it''s'", " `b`", " c.d ", "; ", " \"x y\"", " é", " \\n", " a-- b", " 1.5e3", " #c"]))
    return ps


def trim(ps):
    ps = [dict(x) for x in merge(ps)]
    if ps and ps[-1]["t"] == "lit":
        ps[-1]["v"] = ps[-1]["v"].rstrip()
        if not ps[-1]["v"]:
            ps.pop()
    for x in ps:
        if x["t"] == "lit":
            x["v"] = re.sub(r"  +", " ", x["v"])
    for a, b in zip(ps, ps[1:]):
        if a["t"] == b["t"] == "lit":
            raise ValueError
    return ps


def copyno(ps, rng):
    i = rng.randrange(len(ps) + 1)
    return ps[:max(i, 1)] + lit(" t") + [dict(t="copyno")] + lit(" ") + ps[max(i, 1):]


def block(rng, keys, save):
    """save: column names which are still to be saved"""
    w = rng.choice(WORDS)
    head = w + rng.choice([" ", " ", " ", "(", "; "]) if w else rng.choice(["(SELECT ", "/* x */ SELECT ", "; "])
    ps = lit(head) + parts(rng, keys)
    mods = []
    if rng.random() < .25:
        mods.append(dict(m="prepare"))
    if rng.random() < .1:
        mods.append(dict(m="idle", ms=rng.choice([60000, 1500, 5, 2, 3600000, 0, 120000])))
    if rng.random() < .1:
        mods.append(dict(m="rows"))
    if rng.random() < .07:
        mods.append(dict(m="size"))
    if save:
        ks = list(save)
        if rng.random() < .5 and (w.upper() != "SELECT" or rng.random() < .15):
            mods.append(dict(m="insertid", k=ks.pop(0)))
        if ks:
            for _ in range(rng.choice([0, 0, 1, 2])):
                ks.insert(rng.randrange(len(ks) + 1), "_")
            mods.append(dict(m="columns", ks=ks))
    elif rng.random() < .05:
        mods.append(dict(m="columns", ks=["_"] * rng.choice([1, 2])))
    if rng.random() < (.25 if not save else .03):
        n = rng.choice([0, 1, 2, 2, 3, 3, 12]) if rng.random() < .97 else -1
        mods.append(dict(m="copies", n=n))
        if n != 1 and rng.random() < .5:
            ps = copyno(ps, rng)
    if rng.random() < .015:
        twice = any(m["m"] == "copies" for m in mods)
        mods.append(dict(m="bad", text=rng.choice([x for x in BAD if not (twice and x.startswith("copies"))])))
    rng.shuffle(mods)
    return dict(w=w, parts=trim(ps), mods=mods)


def usekeys(b):
    return {x["k"] for p in b["parts"] for x in ([p] + p.get("ps", [])) if x["t"] == "key"}


def trx_case(rng):
    names = rng.sample(NAMES, rng.choice([1, 2, 3, 4]))
    data = {k: cfg(rng.choice(list(GENS)), rng.choice(["", "", "row", rng.choice(SCOPES)])) for k in names}
    cols = rng.sample(COLS, rng.choice([0, 0, 1, 2, 3]))
    for k in cols:
        if rng.random() < .7:
            data[k] = col(rng.random() < .5, rng.choice(["", "", rng.choice(SCOPES)]))
    files, todo = [], list(cols)
    saved = []
    for n in range(rng.choice([1, 1, 1, 2, 3])):
        blocks, mine = [], []
        for _ in range(rng.choice([1, 2, 3, 4, 6])):
            if saved and rng.random() < .01:    # saved twice
                todo.append(rng.choice(saved))
            save = [todo.pop() for _ in range(rng.choice([1, 1, 2])) if todo] if rng.random() < .35 else []
            keys = names + saved * 2 + (["@PREV"] if rng.random() < .3 else []) + (["@nope"] if rng.random() < .01 else []) + (todo if rng.random() < .01 else [])
            b = block(rng, keys, save)
            blocks.append(b)
            saved += [k for k in save if k not in saved]
            mine += save
        # use what was saved
        used = set().union(*[usekeys(b) for b in blocks])
        left = [k for k in mine if k not in used]
        if left and rng.random() < .95:
            ps = lit("DELETE FROM t WHERE x IN (")
            for k in left:
                ps += key(k) + lit(", ")
            blocks.append(dict(w="DELETE", parts=trim(ps + lit("1)")), mods=[]))
        nm = "t%d" % n
        files.append(dict(name=nm, path=rng.choice(["%s.sql" % nm, "d/%s" % nm]), blocks=blocks))
    for f in files:
        for b in f["blocks"]:
            b["parts"] = fixprev(b["parts"], rng)
    return finish(dict(files=files, data=data), rng)


def fixprev(ps, rng):
    """@PREV is only written after a key (nearly always)"""
    seen = rng.random() < .02
    o = []
    for p in ps:
        if p["t"] == "csv":
            s2, q = seen, []
            for x in p["ps"]:
                if x["t"] == "key" and x["k"] == "@PREV":
                    x = dict(t="key", k="@PREV", call=False) if s2 else dict(t="lit", v="0")
                elif x["t"] == "key":
                    s2 = True
                q.append(x)
            seen = s2
            p = dict(p, ps=merge(q))
        elif p["t"] == "key" and p["k"] == "@PREV":
            p = dict(t="key", k="@PREV", call=False) if seen else dict(t="lit", v="0")
        elif p["t"] == "key":
            seen = True
        o.append(p)
    return merge(o)


# ---------------------------------------------------------------- all small statements
def small(l):
    rc, out, st = vlib.tlc("TrxFileMC", cfgtext="SPECIFICATION Spec\nCONSTANT L = %d\nCHECK_DEADLOCK FALSE\n" % l, workers=1)
    if rc != 0:
        raise vlib.Broken("TrxFileMC: " + out[-2000:])
    r = []
    for u, p, c, s in re.findall(r'<<\s*"U",\s*(<<.*?>>)\s*,\s*(TRUE|FALSE),\s*(\d),\s*"(\w*)"\s*>>', out, re.S):
        r.append(([(k, a == "TRUE", b == "TRUE") for k, a, b in re.findall(r'<<\s*"([^"]*)",\s*(TRUE|FALSE),\s*(TRUE|FALSE)\s*>>', u)], p == "TRUE", int(c), s))
    return r, st


def small_case(m, rng):
    uses, prep, copies, scope = m
    ps, csv = lit("INSERT INTO t "), None
    for k, call, incsv in uses:
        if incsv:
            if csv is None:
                csv = lit("(")
            else:
                csv += lit(", ")
            csv += key(k, call)
            continue
        if csv:
            ps += [dict(t="csv", n=2, ps=csv + lit(")"))] + lit(" ")
            csv = None
        ps += key(k, call) + lit(" ")
    if csv:
        ps += [dict(t="csv", n=2, ps=csv + lit(")"))]
    mods = ([dict(m="prepare")] if prep else []) + ([dict(m="copies", n=copies)] if copies > 1 else [])
    return finish(dict(files=[dict(name="t", path="t.sql", blocks=[dict(w="INSERT", parts=trim(ps), mods=mods)])],
                       data={"@d": cfg("int-range", scope), "@d2": cfg("xid", scope)}), rng)


# ---------------------------------------------------------------- run and judge
def run(cases):
    r = vlib.harness("trxfile", inp=json.dumps([c["h"] for c in cases]), timeout=600)
    if r.returncode != 0:
        if "panic" in r.stderr or "fatal error" in r.stderr or not r.stdout:
            return None, r.stderr[-3000:]
        raise vlib.Broken("trxfile harness: " + r.stderr[-2000:])
    return [dict(c, r=dict(err=o["err"], panic=o["panic"], order=o["order"] or [], files=o["out"] or [], keys=o["keys"] or {})) for c, o in zip(cases, json.loads(r.stdout))], ""


def adapt(c):
    return dict(files=[dict(name=f["name"], blocks=f["blocks"]) for f in c["files"]], data=dict(c["data"], _=dict(quoted=False, plain="s", scope="")),
                err=bool(c["r"]["err"]), panic=bool(c["r"]["panic"]), out=dict(order=c["r"]["order"], files=c["r"]["files"], keys=dict(c["r"]["keys"])))


def check(cases):
    return vlib.judge("TrxFileTrace", cases, lambda cs: [adapt(c) for c in cs])
