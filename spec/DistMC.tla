------------------------------ MODULE DistMC ------------------------------
(***************************************************************************)
(* Does the protocol give what Dist.tla promises?  A server with its       *)
(* collector and clients that retry requests over a network that loses     *)
(* requests and responses; every statement, report, end of a stage and end *)
(* of a process is checked with the conditions of Dist.tla.                *)
(*                                                                         *)
(* Fault # "none" are designs that must be found wrong (the model would    *)
(* be vacuous otherwise): a repeated ack counts twice, a repeated report   *)
(* counts twice, no wait for the other instances, no wait for the final    *)
(* statistics, a client that doesn't resend, statistics sent after "done". *)
(***************************************************************************)
EXTENDS Dist

CONSTANTS Rem, NS, K, MaxLoss, Local, Fault

VARIABLES S,      \* state of Dist
          bad,    \* a condition of Dist has been violated
          ph,     \* server: idle, boot, run, end
          adm,    \* remote -> its state at the server
          nb, nd, \* instances booted, done
          lp,     \* local instance: no, ready, run, final, done
          lx,     \* statements executed by it in this stage
          col,    \* current interval: instance -> statements
          rep,    \* reported
          cl,     \* remote -> [p: phase, n: process, k: stage, x: executed, w: what is on the wire]
          loss
vars == <<S, bad, ph, adm, nb, nd, lp, lx, col, rep, cl, loss>>

D == [k \in 1..NS |-> [hosts |-> Rem \cup (IF Local THEN {"local"} ELSE {}), remote |-> TRUE, clients |-> 1, exact |-> TRUE]]
NI == Cardinality(Rem) + (IF Local THEN 1 ELSE 0)

Ev(ok, S1) == S' = S1 /\ bad' = (bad \/ ~ok)
Same == UNCHANGED <<S, bad>>

Init == /\ S = [Start0 EXCEPT !.up = {<<"local", 1>>}] /\ bad = FALSE /\ ph = "idle"
        /\ adm = [h \in Rem |-> "no"] /\ nb = 0 /\ nd = 0 /\ lp = "no" /\ lx = 0 /\ col = <<>> /\ rep = FALSE
        /\ cl = [h \in Rem |-> [p |-> "off", n |-> 0, k |-> 0, x |-> 0, w |-> "no"]] /\ loss = 0

Entry(h, x) == [host |-> h, interval |-> 1, clients |-> 1,
             trx |-> <<[name |-> "x", n |-> [Zero EXCEPT !.read = x]]>>, errs |-> <<>>]
RECURSIVE SeqOf(_)
SeqOf(f) == IF f = <<>> THEN <<>>
            ELSE LET h == CHOOSE h \in DOMAIN f : TRUE
                 IN <<Entry(h, f[h])>> \o SeqOf([g \in DOMAIN f \ {h} |-> f[g]])

\* the collector gets statistics of h (x statements); cnt: number of entries that it has then
Collect(h, x, cnt) ==
  IF rep \/ (h \in DOMAIN col /\ Fault # "dupstats") THEN Same /\ UNCHANGED <<col, rep>>
  ELSE IF cnt >= NI
       THEN LET in == SeqOf((h :> x) @@ col) IN /\ Ev(ReportOk(D, S, in), Report(D, S, in))
                                             /\ rep' = TRUE /\ col' = <<>>
       ELSE col' = (h :> x) @@ col /\ Same /\ UNCHANGED rep

\* ---- server ----
Begin1 == /\ ph = "idle" /\ S.st < NS
          /\ Ev(BeginOk(D, S, S.st + 1), Begin(D, S, S.st + 1))
          /\ ph' = "boot" /\ adm' = [h \in Rem |-> "no"] /\ nb' = (IF Local THEN 1 ELSE 0) /\ nd' = 0
          /\ lp' = (IF Local THEN "ready" ELSE "no") /\ lx' = 0 /\ col' = <<>> /\ rep' = FALSE
          /\ UNCHANGED <<cl, loss>>
Go == /\ ph = "boot" /\ (nb >= NI \/ (Fault = "nobarrier" /\ nb > 0))
      /\ ph' = "run" /\ lp' = (IF Local THEN "run" ELSE "no") /\ Same
      /\ UNCHANGED <<adm, nb, nd, lx, col, rep, cl, loss>>
LocalStmt == /\ lp = "run" /\ lx < K /\ lx' = lx + 1
             /\ Ev(StmtOk(D, S, "local", 1, S.st, 0), Stmt(D, S, "local", "x", "SELECT", 0))
             /\ UNCHANGED <<ph, adm, nb, nd, lp, col, rep, cl, loss>>
LocalEnd == /\ lp = "run" /\ lx = K /\ lp' = "final"
            /\ Collect("local", lx, Cardinality(DOMAIN col) + 1)
            /\ UNCHANGED <<ph, adm, nb, nd, lx, cl, loss>>
\* final statistics have arrived (or aren't waited for): the reporters stop
LocalOver == /\ lp = "final" /\ (rep \/ Fault = "nowait")
             /\ Ev(OverOk(D, S), Over(D, S)) /\ lp' = "done" /\ nd' = nd + 1
             /\ UNCHANGED <<ph, adm, nb, lx, col, rep, cl, loss>>
\* without a local instance the server stops the reporters when all are done
SrvReport == /\ ~Local /\ ph = "run" /\ nd >= NI /\ ~rep /\ col # <<>>
             /\ LET in == SeqOf(col) IN Ev(ReportOk(D, S, in), Report(D, S, in))
             /\ rep' = TRUE /\ col' = <<>> /\ UNCHANGED <<ph, adm, nb, nd, lp, lx, cl, loss>>
SrvOver == /\ ~Local /\ ph = "run" /\ nd >= NI /\ col = <<>> /\ ~S.over
           /\ Ev(OverOk(D, S), Over(D, S)) /\ UNCHANGED <<ph, adm, nb, nd, lp, lx, col, rep, cl, loss>>
EndStage == /\ ph = "run" /\ nd >= NI /\ S.over /\ Same
            /\ ph' = "idle" /\ lp' = "no" /\ UNCHANGED <<adm, nb, nd, lx, col, rep, cl, loss>>
SrvExit == /\ ph = "idle" /\ S.st = NS /\ ph' = "end"
           /\ Ev(ExitOk(D, S, "local", 1, 0, 0), Exit(D, S, "local", 1))
           /\ UNCHANGED <<adm, nb, nd, lp, lx, col, rep, cl, loss>>

\* ---- remote instances: one request at a time, sent again until it's answered ----
Reqs == {"boot", "ack", "wait", "stats", "done"}
StartProc(h) == /\ cl[h].p = "off" /\ cl[h].n < NS
                /\ cl' = [cl EXCEPT ![h] = [p |-> "boot", n |-> @.n + 1, k |-> 0, x |-> 0, w |-> "no"]]
                /\ S' = [S EXCEPT !.up = @ \cup {<<h, cl[h].n + 1>>}] /\ UNCHANGED bad
                /\ UNCHANGED <<ph, adm, nb, nd, lp, lx, col, rep, loss>>
Send(h) == /\ cl[h].p \in Reqs /\ cl[h].w = "no" /\ cl' = [cl EXCEPT ![h].w = "req"] /\ Same
           /\ UNCHANGED <<ph, adm, nb, nd, lp, lx, col, rep, loss>>
After(p) == CASE p = "boot" -> "ack" [] p = "ack" -> "wait" [] p = "wait" -> "run"
              [] p = "stats" -> (IF Fault = "late" THEN "exit" ELSE "done")
              [] p = "done" -> (IF Fault = "late" THEN "stats" ELSE "exit")
\* what the server does with the request of h; the answer goes back (w = "resp")
Handle(h) ==
  LET c == cl[h] IN
  /\ c.w = "req"
  /\ CASE c.p = "boot" -> /\ ph = "boot" /\ adm[h] \in {"no", "booting"}
                          /\ adm' = [adm EXCEPT ![h] = "booting"]
                          /\ cl' = [cl EXCEPT ![h].w = "resp", ![h].k = S.st]
                          /\ Same /\ UNCHANGED <<nb, nd, col, rep>>
       [] c.p = "ack"  -> /\ c.k = S.st
                          /\ adm' = [adm EXCEPT ![h] = IF @ = "booting" THEN "booted" ELSE @]
                          /\ nb' = IF adm[h] = "booting" \/ Fault = "dupack" THEN nb + 1 ELSE nb
                          /\ cl' = [cl EXCEPT ![h].w = "resp"]
                          /\ Same /\ UNCHANGED <<nd, col, rep>>
       [] c.p = "wait" -> /\ ph = "run" /\ adm[h] \in {"booted", "running"}
                          /\ adm' = [adm EXCEPT ![h] = "running"]
                          /\ cl' = [cl EXCEPT ![h].w = "resp"]
                          /\ Same /\ UNCHANGED <<nb, nd, col, rep>>
       [] c.p = "stats" -> /\ cl' = [cl EXCEPT ![h].w = "resp"]
                           /\ IF c.k = S.st /\ ~S.over
                              THEN Collect(h, c.x, IF Fault = "dupstats" /\ h \in DOMAIN col THEN NI ELSE Cardinality(DOMAIN col) + 1)
                              ELSE Same /\ UNCHANGED <<col, rep>>
                           /\ UNCHANGED <<adm, nb, nd>>
       [] c.p = "done" -> /\ cl' = [cl EXCEPT ![h].w = "resp"]
                          /\ adm' = [adm EXCEPT ![h] = IF c.k = S.st THEN "done" ELSE @]
                          /\ nd' = IF c.k = S.st /\ adm[h] = "running" THEN nd + 1 ELSE nd
                          /\ Same /\ UNCHANGED <<nb, col, rep>>
  /\ UNCHANGED <<ph, lp, lx, loss>>
Lose(h) == /\ cl[h].w \in {"req", "resp"} /\ loss < MaxLoss /\ loss' = loss + 1 /\ Same
           /\ cl' = [cl EXCEPT ![h] = IF Fault = "noresend" /\ @.p = "stats" THEN [@ EXCEPT !.w = "no", !.p = "done"]
                                      ELSE [@ EXCEPT !.w = "no"]]
           /\ UNCHANGED <<ph, adm, nb, nd, lp, lx, col, rep>>
Recv(h) == /\ cl[h].w = "resp" /\ cl' = [cl EXCEPT ![h].w = "no", ![h].p = After(cl[h].p)] /\ Same
           /\ UNCHANGED <<ph, adm, nb, nd, lp, lx, col, rep, loss>>
Work(h) == /\ cl[h].p = "run"
           /\ IF cl[h].x < K
              THEN /\ Ev(StmtOk(D, S, h, cl[h].n, cl[h].k, 0), Stmt(D, S, h, "x", "SELECT", 0))
                   /\ cl' = [cl EXCEPT ![h].x = @ + 1]
              ELSE cl' = [cl EXCEPT ![h].p = IF Fault = "late" THEN "done" ELSE "stats"] /\ Same
           /\ UNCHANGED <<ph, adm, nb, nd, lp, lx, col, rep, loss>>
Quit(h) == /\ cl[h].p = "exit" /\ cl' = [cl EXCEPT ![h].p = "off"]
           /\ Ev(ExitOk(D, S, h, cl[h].n, 0, 0), Exit(D, S, h, cl[h].n))
           /\ UNCHANGED <<ph, adm, nb, nd, lp, lx, col, rep, loss>>

Srv == Begin1 \/ Go \/ LocalStmt \/ LocalEnd \/ LocalOver \/ SrvReport \/ SrvOver \/ EndStage \/ SrvExit
Cli(h) == StartProc(h) \/ Send(h) \/ Handle(h) \/ Recv(h) \/ Work(h) \/ Quit(h)
Next == Srv \/ \E h \in Rem : Cli(h) \/ Lose(h)
Spec == Init /\ [][Next]_vars /\ WF_vars(Srv) /\ (\A h \in Rem : WF_vars(Cli(h)))

Kept == ~bad
Inv == Conserved(D, S) /\ NotMore(D, S)
\* the whole run comes to its end, whatever is lost
Ends == <>(ph = "end" /\ \A h \in Rem : cl[h].p = "off" /\ cl[h].n = NS)
=============================================================================
