------------------------------- MODULE Config -------------------------------
(* The effective configuration of a stage: command line over stage file over      *)
(* _all.yaml of the directory over defaults, setting by setting, with every       *)
(* reference replaced by its value.  A setting is a path (sequence of strings); a *)
(* written value is a sequence of parts: literal text, a human-readable number    *)
(* (as written, and its value), or a reference.  Evaluation yields <<string>>, or *)
(* <<>> if a reference is undefined or refers to itself.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE C       \* the case: files, command line, environment

-----------------------------------------------------------------------------
(* settings *)
MySQLStr == {"db", "dsn", "hostname", "mycnf", "password", "password-file", "socket", "timeout-connect", "username"}
TlsStr   == {"ca", "cert", "key"}
ClientNum == {"clients", "iter", "iter-clients", "iter-exec-group", "qps", "qps-clients", "qps-exec-group", "tps", "tps-clients", "tps-exec-group"}

Bool(p) == p \in {<<"disable">>, <<"compute", "disable-local">>, <<"mysql", "disable-auto-tls">>, <<"tls", "skip-verify">>,
                  <<"tls", "disable">>, <<"stats", "disable">>} \/ (Len(p) = 3 /\ p[1] = "workload" /\ p[3] = "disable-stats")
IsInt(p)  == p \in {<<"qps">>, <<"tps">>, <<"compute", "instances">>} \/ (Len(p) = 3 /\ p[1] = "workload" /\ p[3] \in ClientNum)
Dur(p)  == p \in {<<"runtime">>, <<"stats", "freq">>} \/ (Len(p) = 3 /\ p[1] = "workload" /\ p[3] = "runtime")
\* maps the user writes: every key is a setting, also if its value is empty
Free(p) == \/ Len(p) = 2 /\ p[1] \in {"params", "report"}
           \/ Len(p) = 3 /\ p[1] = "report"
           \/ Len(p) = 6 /\ p[1] = "trx" /\ p[5] = "params"
Base(p) == \/ Len(p) = 2 /\ p[1] = "mysql" /\ p[2] \in MySQLStr \cup {"disable-auto-tls"}
           \/ Len(p) = 2 /\ p[1] = "tls" /\ p[2] \in TlsStr \cup {"skip-verify", "disable"}
           \/ Len(p) = 2 /\ p[1] = "stats" /\ p[2] \in {"disable", "freq"}
           \/ p[1] \in {"params", "report"}
Known(p) == \/ Base(p) \/ Bool(p) \/ IsInt(p) \/ Dur(p)
            \/ p = <<"name">>
            \/ Len(p) = 3 /\ p[1] = "trx" /\ p[3] \in {"name", "file"}
            \/ Len(p) = 5 /\ p[1] = "trx" /\ p[3] = "data" /\ p[5] \in {"name", "generator", "scope"}
            \/ Len(p) = 6 /\ p[1] = "trx" /\ p[3] = "data" /\ p[5] = "params"
            \/ Len(p) = 3 /\ p[1] = "workload" /\ p[3] \in {"db", "group"}
            \/ Len(p) = 4 /\ p[1] = "workload" /\ p[3] = "trx"
\* human-readable numbers are numbers in these
Numeric(p) == IsInt(p) \/ p[1] = "params" \/ (Len(p) = 6 /\ p[1] = "trx")
Scopes == {"", "global", "stage", "workload", "exec-group", "client-group", "client", "iter", "trx", "statement", "row", "value"}

-----------------------------------------------------------------------------
(* a file is a sequence of settings [p, v]; each path occurs at most once *)
Paths(f)  == {f[i].p : i \in DOMAIN f}
Val(f, p) == f[CHOOSE i \in DOMAIN f : f[i].p = p].v
IsSet(f, p) == p \in Paths(f) /\ (Free(p) \/ Val(f, p) # <<>>)
Reports(f) == \E q \in Paths(f) : q[1] = "report"

\* command line: params, then DSN and database
CliParams == {C.cli.params[i].k : i \in DOMAIN C.cli.params}
CliParam(k) == C.cli.params[CHOOSE i \in DOMAIN C.cli.params : C.cli.params[i].k = k /\ \A j \in DOMAIN C.cli.params : C.cli.params[j].k = k => j <= i].v
\* the DSN and database are options, or else environment variables
CliDsn == IF C.cli.dsn # <<>> THEN C.cli.dsn ELSE C.cli.edsn
CliDb  == IF C.cli.db # <<>> THEN C.cli.db ELSE C.cli.edb
CliSet(p) == \/ Len(p) = 2 /\ p[1] = "params" /\ p[2] \in CliParams
             \/ p = <<"mysql", "dsn">> /\ CliDsn # <<>>
             \/ p = <<"mysql", "db">> /\ CliDb # <<>>
             \/ Len(p) = 3 /\ p[1] = "workload" /\ p[3] = "db" /\ CliDb # <<>>
CliVal(p) == IF p[1] = "params" THEN CliParam(p[2]) ELSE IF p = <<"mysql", "dsn">> THEN CliDsn ELSE CliDb

\* where the value of a setting comes from.  Reporters are one setting.
Written(s, b, p) == IF CliSet(p) THEN CliVal(p)
                    ELSE IF IsSet(s, p) THEN Val(s, p)
                    ELSE IF Base(p) /\ IsSet(b, p) /\ (p[1] = "report" => ~Reports(s)) THEN Val(b, p)
                    ELSE <<>>
WrittenPaths(s, b) ==
  {p \in Paths(s) : IsSet(s, p)}
  \cup {p \in Paths(b) : IsSet(b, p) /\ (p[1] = "report" => ~Reports(s))}
  \cup {<<"params", k>> : k \in CliParams}
  \cup (IF CliDsn # <<>> THEN {<<"mysql", "dsn">>} ELSE {})
  \cup (IF CliDb # <<>> THEN {<<"mysql", "db">>} \cup {<<"workload", q[2], "db">> : q \in {q \in Paths(s) : q[1] = "workload"}} ELSE {})

-----------------------------------------------------------------------------
(* evaluation *)
RECURSIVE Eval(_, _, _, _)
EvalPart(x, P, seen, num) ==
  CASE x.t = "lit" -> <<x.v>>
    [] x.t = "num" -> <<IF num THEN x.v ELSE x.w>>
    [] x.t = "sys" -> IF x.k = "CPU_CORES" THEN <<C.cpus>> ELSE <<>>
    [] x.t = "env" -> IF x.k \in DOMAIN C.env THEN Eval(C.env[x.k], P, seen, num) ELSE <<>>
    [] x.t = "par" -> IF x.k \notin DOMAIN P \/ x.k \in seen THEN <<>> ELSE Eval(P[x.k], P, seen \cup {x.k}, TRUE)
Eval(v, P, seen, num) ==
  IF v = <<>> THEN <<"">>
  ELSE LET h == TLCEval(EvalPart(v[1], P, seen, num))
           t == TLCEval(Eval(Tail(v), P, seen, num)) IN
       IF h = <<>> \/ t = <<>> THEN <<>> ELSE <<h[1] \o t[1]>>

ParamFn(s, b) == LET ks == {p[2] : p \in {p \in WrittenPaths(s, b) : p[1] = "params"}} IN [k \in ks |-> Written(s, b, <<"params", k>>)]

\* the last element of a path name
Slashes(n) == {i \in 1..Len(n) : SubSeq(n, i, i) = "/"}
BaseName(n) == IF Slashes(n) = {} THEN n ELSE SubSeq(n, 1 + (CHOOSE i \in Slashes(n) : \A j \in Slashes(n) : j <= i), Len(n))

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Ch(x, i) == SubSeq(x, i, i)
DigitVal == [d \in Digits |-> CHOOSE n \in 0..9 : ToString(n) = d]
RECURSIVE Above(_, _, _)      \* decimal string x > y, same length
Above(x, y, i) == i <= Len(x) /\ (DigitVal[Ch(x, i)] > DigitVal[Ch(y, i)] \/ (Ch(x, i) = Ch(y, i) /\ Above(x, y, i + 1)))
IsUint(x) == /\ Len(x) > 0 /\ \A i \in 1..Len(x) : Ch(x, i) \in Digits
             /\ Len(x) <= 10 /\ (Len(x) = 10 => ~Above(x, "4294967295", 1))
IsZero(x) == \A i \in 1..Len(x) : Ch(x, i) = "0"

\* Go durations: a sequence of decimal numbers, each with a unit
RECURSIVE Num(_, _)
Num(x, i) == IF i > Len(x) \/ Ch(x, i) \notin Digits THEN i ELSE Num(x, i + 1)
UnitAt(x, i) == IF i < Len(x) /\ SubSeq(x, i, i + 1) \in {"ns", "us", "ms"} THEN i + 2 ELSE IF i <= Len(x) /\ Ch(x, i) \in {"s", "m", "h"} THEN i + 1 ELSE 0
RECURSIVE DurRest(_, _)
DurRest(x, i) ==
  IF i > Len(x) THEN TRUE
  ELSE LET a == Num(x, i)
           b == IF a <= Len(x) /\ Ch(x, a) = "." THEN Num(x, a + 1) ELSE a
           u == UnitAt(x, b) IN
       /\ a > i \/ b > a + 1
       /\ u > 0
       /\ DurRest(x, u)
IsDur(x)  == Len(x) > 0 /\ Ch(x, 1) # "-" /\ DurRest(x, IF Ch(x, 1) = "+" THEN 2 ELSE 1)
ZeroDur(x) == x = "0" \/ (IsDur(x) /\ \A i \in 1..Len(x) : Ch(x, i) \in Digits => Ch(x, i) = "0")

-----------------------------------------------------------------------------
(* the stages *)
FileOf(i) == C.stages[i]
BaseOf(i) == IF C.stages[i].dir \in DOMAIN C.dirs THEN C.dirs[C.stages[i].dir] ELSE <<>>

\* evaluated settings of stage i, as a function from path to <<string>> or <<>>
Evaluated(i) ==
  LET s == FileOf(i).set  b == BaseOf(i)  P == TLCEval(ParamFn(s, b)) IN
  [p \in WrittenPaths(s, b) |->
     IF p[1] = "params" THEN Eval(P[p[2]], P, {p[2]}, TRUE) ELSE Eval(Written(s, b, p), P, {}, Numeric(p))]

Indexes(E, sec) == {p[2] : p \in {p \in DOMAIN E : p[1] = sec}}
Get(E, p) == IF p \in DOMAIN E THEN E[p][1] ELSE ""
Ix(n) == ToString(n)
Count(E, sec) == Cardinality(Indexes(E, sec))

\* settings which are not written, or are written as nothing
Default(i, E, p) ==
  CASE p = <<"name">> -> BaseName(FileOf(i).file)
    [] p = <<"compute", "instances">> -> "1"
    [] p = <<"stats", "freq">> -> "0s"
    [] Len(p) = 3 /\ p[1] = "workload" /\ p[3] = "clients" -> "1"
    [] Len(p) = 3 /\ p[1] = "trx" /\ p[3] = "name" -> BaseName(Get(E, <<"trx", p[2], "file">>))
    [] OTHER -> ""
Final(i, E, p) ==
  LET x == Get(E, p) IN
  IF Bool(p) THEN (IF x = "true" THEN x ELSE "")        \* false is the default
  ELSE IF x = "" \/ (p = <<"compute", "instances">> /\ IsZero(x)) THEN Default(i, E, p) ELSE x
DefaultPaths(E) == {<<"name">>, <<"compute", "instances">>, <<"stats", "freq">>}
                   \cup {<<"workload", k, "clients">> : k \in Indexes(E, "workload")}
                   \cup {<<"trx", k, "name">> : k \in Indexes(E, "trx")}
DefaultReport == {<<<<"report", "stdout">>, "">>, <<<<"report", "stdout", "each-instance">>, "true">>}

\* the effective configuration
Effective(i, E) ==
  {<<p, Final(i, E, p)>> : p \in {p \in DOMAIN E \cup DefaultPaths(E) : Free(p) \/ Final(i, E, p) # ""}}
  \cup (IF \E p \in DOMAIN E : p[1] = "report" THEN {} ELSE DefaultReport)

-----------------------------------------------------------------------------
(* configurations which must be refused *)
TrxPaths(E, k) == {p \in DOMAIN E : p[1] = "trx" /\ p[2] = k}
DataKeys(E) == {<<p[2], p[4]>> : p \in {p \in DOMAIN E : p[1] = "trx" /\ Len(p) >= 5}}
Assigned(E, k) == {E[p][1] : p \in {p \in DOMAIN E : Len(p) = 4 /\ p[1] = "workload" /\ p[2] = k}}
Group(E, n) == Get(E, <<"workload", Ix(n), "group">>)

Refuse(i, E) ==
  \/ \E p \in Paths(FileOf(i).set) : ~Known(p)
  \/ \E p \in Paths(BaseOf(i)) : ~Base(p)
  \/ \E p \in DOMAIN E : E[p] = <<>>                              \* undefined reference
  \/ \E p \in DOMAIN E : Bool(p) /\ E[p][1] \notin {"true", "false"}
  \/ /\ Get(E, <<"disable">>) # "true"
     /\ \/ Count(E, "trx") = 0
        \/ \E k \in Indexes(E, "trx") : Get(E, <<"trx", k, "file">>) \notin C.files[FileOf(i).dir]
        \/ \E d \in DataKeys(E) : \/ Get(E, <<"trx", d[1], "data", d[2], "generator">>) = ""
                                  \/ Get(E, <<"trx", d[1], "data", d[2], "scope">>) \notin Scopes
        \/ \E p \in DOMAIN E : IsInt(p) /\ E[p][1] # "" /\ ~IsUint(E[p][1])
        \/ \E p \in DOMAIN E : Dur(p) /\ E[p][1] # "" /\ ~IsDur(E[p][1]) /\ ~ZeroDur(E[p][1])
        \/ \E k \in Indexes(E, "workload") : \E t \in Assigned(E, k) : t \notin {Final(i, E, <<"trx", x, "name">>) : x \in Indexes(E, "trx")}
        \/ \E a, c \in Indexes(E, "trx") : /\ Final(i, E, <<"trx", a, "name">>) = Final(i, E, <<"trx", c, "name">>)
                                             /\ Get(E, <<"trx", a, "file">>) # Get(E, <<"trx", c, "file">>)
        \/ Cardinality({Assigned(E, k) = {} : k \in Indexes(E, "workload")}) = 2
        \/ \E a, c \in 1..Count(E, "workload") : a < c /\ Group(E, a) # "" /\ Group(E, a) = Group(E, c) /\ \E m \in a..c : Group(E, m) # Group(E, a)
        \/ \E d, e \in DataKeys(E) : /\ d[2] = e[2]
                                     /\ Get(E, <<"trx", d[1], "data", d[2], "scope">>) # Get(E, <<"trx", e[1], "data", e[2], "scope">>)
\* configurations the documentation leaves open
Open(i, E) == \/ \E p \in DOMAIN E : Dur(p) /\ E[p] # <<>> /\ ZeroDur(E[p][1])
              \/ Get(E, <<"disable">>) = "true"
=============================================================================
