----------------------------- MODULE DistTrace -----------------------------
(* Are recorded distributed runs (a server and its clients) behaviours of Dist.tla? *)
EXTENDS Dist, Json, IOUtils

In == JsonDeserialize(IOEnv.VERIF_IN)
T == In.traces
D == [k \in DOMAIN T |-> [i \in DOMAIN T[k].d |->
        [T[k].d[i] EXCEPT !.hosts = {@[j] : j \in DOMAIN @}]]]

VARIABLES tid, l, S
Init == tid \in DOMAIN T /\ l = 1 /\ S = Start0

Step(d, e) ==
  CASE e.e = "start"  -> S' = [S EXCEPT !.up = @ \cup {<<e.h, e.n>>}]
    [] e.e = "begin"  -> BeginOk(d, S, e.st) /\ S' = Begin(d, S, e.st)
    [] e.e = "stmt"   -> StmtOk(d, S, e.h, e.n, e.st, e.t) /\ S' = Stmt(d, S, e.h, e.trx, e.w, e.t)
    [] e.e = "err"    -> S' = Err(d, S, e.h, e.code)
    [] e.e = "report" -> ReportOk(d, S, e.from) /\ S' = Report(d, S, e.from)
    [] e.e = "over"   -> OverOk(d, S) /\ OverSigOk(d, S) /\ S' = Over(d, S)
    [] e.e = "sig"    -> S' = IF e.h = "local" THEN [S EXCEPT !.sig = e.t] ELSE [S EXCEPT !.out = @ \cup {e.h}]
    [] e.e = "exit"   -> ExitOk(d, S, e.h, e.n, e.code, e.t) /\ S' = Exit(d, S, e.h, e.n)
    [] OTHER -> FALSE

Next == /\ l <= Len(T[tid].ev)
        /\ Step(D[tid], T[tid].ev[l])
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ PrintT(<<IF l = Len(T[tid].ev) THEN "ACCEPTED" ELSE "AT", tid, l>>)
Spec == Init /\ [][Next]_<<tid, l, S>>
View == <<tid, l>>
Inv == Conserved(D[tid], S) /\ NotMore(D[tid], S)
=============================================================================
