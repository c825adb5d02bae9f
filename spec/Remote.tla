------------------------------- MODULE Remote -------------------------------
(***************************************************************************)
(* A remote instance (finch --client): what it may send to the server and  *)
(* execute on MySQL, as a state machine over what can be observed of it.   *)
(* A request is observed with the fate the network and the server gave it: *)
(*   code 200 / 205: answered so;  0: no (complete) answer;  500: refused. *)
(* S is the state; each action is a guard and a new state.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS C,    \* the scenario: [id, files, local, want, boots, freq, stopat, lost, sid]
          Tol   \* ms within which the instance has to react
\* C.files:  number of trx files          C.local: those the instance has already (may skip)
\* C.want:   statements of each trx when everything is executed
\* C.boots:  the stage boots here         C.stopat / C.lostat: ms after the run signal, 0 never

\* phase: "boot" -> "files" -> "booted" -> "running" -> "done"; or "failed", "tested"
Init == [ph |-> "boot", name |-> "", tries |-> 0, last |-> 0, got |-> {}, ftry |-> [i \in 0..(C.files - 1) |-> 0],
         ack |-> "", body |-> "", cnt |-> [i \in 1..C.files |-> 0], runAt |-> -1, toldAt |-> -1, sig |-> -1,
         pings |-> 0, pfail |-> 0, pingAt |-> -1, iv |-> 0, ivh |-> "", ivok |-> TRUE, ivtry |-> 0, sum |-> 0, lostiv |-> 0,
         inflight |-> 0, stmts |-> 0, dbody |-> "", dok |-> FALSE]

Ident(S, e) == /\ e.name # "" /\ (S.name # "" => e.name = S.name)
               /\ e.sid = (IF S.ph = "boot" \/ e.ep = "boot" THEN "" ELSE C.id)

\* a request was not answered in time if it is repeated only after its time limit
Late(S, e, limit) == e.t >= S.last + limit

Fetched(S) == \A i \in 0..(C.files - 1) : i \in S.got \/ i \in C.local

Boot(S, e) ==
  [ok |-> \/ S.ph = "boot"
          \/ S.ph = "files" /\ S.got = {} /\ S.tries = 0 /\ Late(S, e, 1900),
   S |-> [S EXCEPT !.ph = (IF e.code = 200 THEN "files" ELSE "boot"), !.name = e.name, !.last = e.t]]

\* every file the instance does not have, each at most three times
File(S, e) ==
  [ok |-> /\ S.ph = "files" /\ S.ack = ""
          /\ e.ri \in 0..(C.files - 1)
          /\ (e.ri \in S.got => Late(S, e, 4900))
          /\ S.ftry[e.ri] < 3,
   S |-> [S EXCEPT !.tries = 1, !.last = e.t, !.ftry[e.ri] = @ + 1,
                   !.got = IF e.code = 200 THEN @ \cup {e.ri} ELSE @]]

\* one acknowledgement: success only if everything was fetched and the stage boots here;
\* repeated only as long as it has not been answered, and always the same
Ack(S, e) ==
  LET k == IF e.body = "" THEN "ok" ELSE "err"
      max == IF e.body = "" THEN 10 ELSE 3
  IN [ok |-> /\ S.ph \in {"files", "acking"} \/ (S.ph = "booted" /\ Late(S, e, 900))
             /\ IF S.ack = ""
                THEN (k = "ok" => Fetched(S) /\ C.boots) /\ (k = "err" => ~C.boots \/ ~Fetched(S) \/ S.sig >= 0)
                ELSE k = S.ack /\ e.body = S.body
             /\ S.ack # "" => S.tries < max,
      S |-> [S EXCEPT !.ph = IF e.code = 200 THEN (IF k = "ok" THEN "booted" ELSE "failed") ELSE "acking",
                      !.ack = k, !.body = e.body, !.tries = IF S.ack = "" THEN 1 ELSE @ + 1, !.last = e.t]]

\* it waits for the run signal only after its boot was acknowledged
GetRun(S, e) ==
  [ok |-> S.ph = "booted" /\ (S.body = "run" => S.tries < 3),
   S |-> [S EXCEPT !.body = "run", !.tries = IF S.body = "run" THEN @ + 1 ELSE 1]]

RunSignal(S, e) ==
  [ok |-> S.ph = "booted" /\ S.body = "run",
   S |-> [S EXCEPT !.ph = IF e.code = 205 THEN "tested" ELSE "running", !.runAt = e.t]]

\* when it must have stopped executing (2^30: not at all)
Never == 1073741824
Min2(a, b) == IF a < b THEN a ELSE b
StopBy(S) ==
  Min2(IF S.toldAt >= 0 THEN S.toldAt + Tol ELSE Never,
  Min2(IF S.sig >= 0 THEN S.sig + Tol ELSE Never,
  Min2(IF C.stopat > 0 /\ S.runAt >= 0 THEN S.runAt + C.stopat + 3500 + Tol ELSE Never,
       IF C.lostat > 0 /\ S.runAt >= 0 THEN S.runAt + C.lostat + 5500 + Tol ELSE Never)))

\* nothing is executed before the run signal and, soon after it is over, no more
Stmt(S, e) ==
  [ok |-> /\ S.ph = "running"
          /\ e.t <= StopBy(S)
          /\ e.trx \in 1..C.files
          /\ S.cnt[e.trx] < C.want[e.trx],
   S |-> [S EXCEPT !.cnt[e.trx] = @ + 1, !.stmts = @ + 1]]

\* the first ping soon after the run signal, then one a second
Ping(S, e) ==
  [ok |-> /\ S.ph \in {"running", "done"}
          /\ S.pfail < 5,
   S |-> [S EXCEPT !.pings = @ + 1, !.pingAt = e.t,
                   !.pfail = IF e.code \in {200, 205} THEN 0 ELSE @ + 1,
                   !.toldAt = IF @ < 0 /\ (e.code = 205 \/ (S.pfail = 4 /\ e.code \notin {200, 205})) THEN e.t ELSE @]]

\* statistics: intervals in order, each until it is answered (three times at most),
\* with the same content
Stats(S, e) ==
  LET new == e.interval # S.iv
  IN [ok |-> /\ S.ph = "running" /\ ~e.bad /\ e.host = S.name
             /\ IF new THEN e.interval = S.iv + 1 /\ (S.ivok \/ S.ivtry = 3)
                ELSE e.hash = S.ivh /\ S.ivtry < 3 /\ (S.ivok => Late(S, e, 250)),
      S |-> [S EXCEPT !.iv = e.interval, !.ivh = e.hash, !.ivtry = IF new THEN 1 ELSE @ + 1,
                      !.ivok = (e.code = 200) \/ (~new /\ S.ivok),
                      !.sum = IF new THEN @ + e.n ELSE @, !.last = e.t]]

\* not told to stop: everything was executed; and all of it is in the statistics
Told(S) == S.toldAt >= 0 \/ S.sig >= 0
Complete(S) == \A i \in 1..C.files : S.cnt[i] = C.want[i]
Abs(x) == IF x < 0 THEN -x ELSE x
Done(S, e) ==
  [ok |-> /\ S.ph \in {"running", "done"} /\ (S.ph = "done" => (S.tries < 3 /\ ~S.dok) \/ Late(S, e, 400))
          /\ e.body = ""
          /\ S.ph = "running" =>
               /\ (~Told(S) => Complete(S))
               /\ S.iv >= 1 /\ (S.ivok \/ S.ivtry = 3)
               /\ IF Told(S) THEN Abs(S.sum - S.stmts) <= C.clients ELSE S.sum = S.stmts,
   S |-> [S EXCEPT !.ph = "done", !.dok = @ \/ e.code = 200, !.tries = IF S.ph = "done" THEN @ + 1 ELSE 1, !.last = e.t]]

Sig(S, e) == [ok |-> TRUE, S |-> [S EXCEPT !.sig = e.t]]

\* it ends by itself, with success, only when it is done or cannot continue
Exit(S, e) ==
  [ok |-> /\ e.code = 0
          /\ CASE S.ph = "done" -> S.dok \/ S.tries = 3
               [] S.ph \in {"tested", "failed"} -> TRUE
               [] S.sig >= 0 -> S.ph # "running"
               [] S.ph = "files" -> ~C.boots \/ \E i \in 0..(C.files - 1) : S.ftry[i] = 3
               [] S.ph = "acking" -> S.tries = (IF S.ack = "ok" THEN 10 ELSE 3)
               [] S.ph = "booted" -> S.body = "run" /\ S.tries = 3
               [] OTHER -> FALSE
          /\ (S.ph = "files" /\ S.sig < 0 => \E i \in 0..(C.files - 1) : S.ftry[i] = 3 /\ i \notin S.got)
          /\ (S.sig >= 0 => e.t <= S.sig + 7300),
   S |-> [S EXCEPT !.ph = "gone"]]

Act(S, e) ==
  CASE e.e = "req" ->
         LET r == CASE e.ep = "boot" -> Boot(S, e) [] e.ep = "file" -> File(S, e) [] e.ep = "ack" -> Ack(S, e)
                    [] e.ep = "run" -> GetRun(S, e) [] e.ep = "ping" -> Ping(S, e)
                    [] e.ep = "stats" -> Stats(S, e) [] e.ep = "done" -> Done(S, e)
                    [] OTHER -> [ok |-> FALSE, S |-> S]
         IN [r EXCEPT !.ok = r.ok /\ Ident(S, e)]
    [] e.e = "run" -> RunSignal(S, e)
    [] e.e = "stmt" -> Stmt(S, e)
    [] e.e = "sigint" -> Sig(S, e)
    [] e.e = "exit" -> Exit(S, e)
    [] OTHER -> [ok |-> FALSE, S |-> S]
=============================================================================
