-------------------------------- MODULE Dsn ---------------------------------
(* How the clients of a stage connect to MySQL.  Settings come from the stage file,   *)
(* then _all.yaml, then my.cnf, then defaults; a DSN (command line, stage, _all.yaml) *)
(* overrides all of them.  Conns(i) is the set of connection records which are allowed *)
(* for stage i (more than one where the documentation leaves the choice open).         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE C        \* the case: stages, base, cli, and what the files contain

Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE ""
St(i, k)  == Get(C.stages[i], k)
Cfg(i, k) == IF St(i, k) # "" THEN St(i, k) ELSE Get(C.base, k)
Db(i)     == IF C.cli.db # "" THEN C.cli.db ELSE Cfg(i, "db")
DsnOf(i)  == IF C.cli.dsn # "" THEN C.cli.dsn ELSE Cfg(i, "dsn")
True(i, k) == Cfg(i, k) = "true"

\* my.cnf
MyFile(i) == Cfg(i, "mycnf")
My(i, k)  == IF MyFile(i) \in DOMAIN C.mycnf THEN Get(C.mycnf[MyFile(i)], k) ELSE ""
Level(i, k, m) == IF St(i, k) # "" THEN 1 ELSE IF Get(C.base, k) # "" THEN 2 ELSE IF My(i, m) # "" THEN 3 ELSE 4
Pick(i, k, m)  == IF Cfg(i, k) # "" THEN Cfg(i, k) ELSE My(i, m)

\* address: host[:port]; the port of my.cnf belongs to its host
Default == "127.0.0.1"
Host(i) == IF Cfg(i, "host") # "" THEN Cfg(i, "host") ELSE IF My(i, "host") # "" THEN My(i, "host") ELSE Default
Port(i) == IF St(i, "host") # "" THEN St(i, "port") ELSE IF Get(C.base, "host") # "" THEN Get(C.base, "port") ELSE My(i, "port")
NamedHost(i) == Cfg(i, "host") # "" \/ My(i, "host") # ""
Addr(i) == Host(i) \o ":" \o (IF Port(i) = "" THEN "3306" ELSE Port(i))
Socket(i) == Pick(i, "socket", "socket")
\* a socket is used rather than a host, also of my.cnf; if the host is set in a file which comes first, it can be either
Unix(i) == IF Socket(i) = "" THEN {FALSE} ELSE IF Level(i, "host", "host") < Level(i, "socket", "socket") THEN {TRUE, FALSE} ELSE {TRUE}

\* credentials
User(i) == LET u == Pick(i, "user", "user") IN IF u = "" THEN "finch" ELSE u
PwFile(i) == IF Cfg(i, "pwfile") = "" THEN "" ELSE Get(C.pwfiles, Cfg(i, "pwfile"))
Inline(i) == Pick(i, "password", "password")
Passwords(i) ==
  IF PwFile(i) # "" THEN (IF Level(i, "password", "password") < Level(i, "pwfile", "-") THEN {PwFile(i), Inline(i)} ELSE {PwFile(i)})
  ELSE IF Inline(i) # "" THEN {Inline(i)}
  ELSE IF Pick(i, "user", "user") = "" THEN {"amazing"} ELSE {""}

\* TLS: on if not disabled and a file is given, in the stage or _all.yaml, or in my.cnf
MyMode(i) == My(i, "ssl-mode")
MyPreferred(i) == MyMode(i) \in {"", "PREFERRED"}
MyHas(i) == MyMode(i) # "DISABLED" /\ (My(i, "ssl-ca") # "" \/ My(i, "ssl-cert") # "")
\* is TLS of my.cnf used? open: preferred, and there is a socket in another file
MyTls(i, unix) == IF ~MyHas(i) THEN {FALSE}
                  ELSE IF ~MyPreferred(i) THEN {TRUE}
                  ELSE IF unix THEN (IF My(i, "socket") # "" THEN {FALSE} ELSE {TRUE, FALSE})
                  ELSE IF My(i, "socket") # "" THEN {TRUE, FALSE} ELSE {TRUE}
File(i, k, my) == IF Cfg(i, k) # "" THEN Cfg(i, k) ELSE IF my THEN My(i, "ssl-" \o k) ELSE ""
Ip(h) == h \in C.ips
Sni(h) == IF Ip(h) THEN "" ELSE h
Rds(h) == h \in C.rds

\* [tls: none, ok, fail (the client refuses the server)], server name sent, client certificate
TlsRec(i, unix, my, lax) ==
  LET ca == File(i, "ca", my) cert == File(i, "cert", my)
      on == ~True(i, "tls-disable") /\ (ca # "" \/ cert # "")
      named == ~unix \/ NamedHost(i)
      skip == True(i, "skip-verify") \/ (unix /\ ~NamedHost(i))
      good == skip \/ lax \/ (ca = C.goodca /\ Host(i) \in C.names) IN
  IF on THEN [tls |-> (IF good THEN "ok" ELSE "fail"), sni |-> (IF named THEN Sni(Host(i)) ELSE ""),
              cert |-> (IF good THEN (IF cert = "" THEN "" ELSE C.cn[cert]) ELSE "")]
  ELSE IF ~unix /\ Rds(Host(i)) /\ ~True(i, "no-auto-tls") THEN [tls |-> "fail", sni |-> Host(i), cert |-> ""]   \* the server is not Amazon's
  ELSE [tls |-> "none", sni |-> "", cert |-> ""]
\* the server's name need not be verified with most modes of my.cnf
Lax(i, my) == IF my /\ MyMode(i) # "VERIFY_IDENTITY" /\ Cfg(i, "ca") = "" THEN {TRUE, FALSE} ELSE {FALSE}

Login(r, i, pw) == [net |-> r.net, addr |-> r.addr, tls |-> r.tls, sni |-> r.sni, cert |-> r.cert,
                    user |-> (IF r.tls = "fail" THEN "" ELSE User(i)), pw |-> (IF r.tls = "fail" THEN "" ELSE pw), db |-> (IF r.tls = "fail" THEN "" ELSE Db(i))]
FromSettings(i) ==
  UNION {UNION {UNION {LET t == TlsRec(i, u, m, l) IN
                       {Login([net |-> (IF u THEN "unix" ELSE "tcp"), addr |-> (IF u THEN Socket(i) ELSE Addr(i)), tls |-> t.tls, sni |-> t.sni, cert |-> t.cert], i, pw) : pw \in Passwords(i)}
                       : l \in Lax(i, m)} : m \in MyTls(i, u)} : u \in Unix(i)}
FromDsn(d) == [net |-> d.net, addr |-> d.addr, tls |-> d.tls, sni |-> d.sni, cert |-> "",
               user |-> (IF d.tls = "fail" THEN "" ELSE d.user), pw |-> (IF d.tls = "fail" THEN "" ELSE d.pw), db |-> (IF d.tls = "fail" THEN "" ELSE d.db)]
Conns(i) == IF DsnOf(i) # "" THEN {FromDsn(C.dsns[DsnOf(i)])} ELSE FromSettings(i)

\* settings which cannot be used
Missing(f) == f # "" /\ f \notin C.exist
Refuse(i) ==
  IF DsnOf(i) # "" THEN DsnOf(i) \notin DOMAIN C.dsns
  ELSE \/ MyFile(i) # "" /\ MyFile(i) \notin DOMAIN C.mycnf
       \/ Cfg(i, "pwfile") # "" /\ Cfg(i, "pwfile") \notin DOMAIN C.pwfiles
       \/ Cfg(i, "timeout") # "" /\ Cfg(i, "timeout") \notin DOMAIN C.durations
       \/ ~True(i, "tls-disable") /\ \E k \in {"ca", "cert"} : Missing(File(i, k, TRUE \in MyTls(i, TRUE \in Unix(i))))
Limit(i) == IF DsnOf(i) # "" THEN C.dsns[DsnOf(i)].timeout ELSE IF Cfg(i, "timeout") = "" THEN 10000 ELSE C.durations[Cfg(i, "timeout")]

-----------------------------------------------------------------------------
(* a run of all stages: each has one connection which only tests, and those of its clients; *)
(* the run ends at the first stage which cannot connect                                      *)
Bad(i) == Refuse(i) \/ \A r \in Conns(i) : r.tls = "fail"
CanBeBad(i) == Refuse(i) \/ \E r \in Conns(i) : r.tls = "fail"
Contains(s, t) == \E j \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, j, j + Len(t) - 1) = t
=============================================================================
