------------------------------ MODULE RunTrace ------------------------------
(***************************************************************************)
(* Checks recorded executions of the real finch against Run.tla.  One file *)
(* holds many executions; each is an initial state.  An execution is       *)
(* accepted when every recorded event is allowed; otherwise the label of   *)
(* the violated condition is printed with the event number.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils, Alloc

In == JsonDeserialize(IOEnv.VERIF_IN)   \* [cfgs |-> ..., traces |-> ...]
TraceCfgs == In.cfgs
T == In.traces
TracePlans == AllPlans(TraceCfgs)

VARIABLES tid, l, S

\* conditions of other properties that the state doesn't depend on: the execution is
\* judged to its end although they fail
Waived == {In.waive[k] : k \in DOMAIN In.waive}
BlameIt(x) == x \in Waived \/ (PrintT(<<"BLAME", tid, l, x>>) /\ FALSE)
LaterIt(s, e, c) == \E k \in (l+1)..Len(T[tid]) :
                      /\ T[tid][k].e = "q" /\ T[tid][k].kind = "stmt"
                      /\ T[tid][k].st = s /\ T[tid][k].eg = e /\ T[tid][k].cl = c

R == INSTANCE Run WITH Cfgs <- TraceCfgs, Plans <- TracePlans, Blame <- BlameIt, Later <- LaterIt,
                       Tol <- In.tol, StopTol <- In.stoptol

Init == tid \in DOMAIN T /\ l = 1 /\ S = R!InitS

Next == /\ l <= Len(T[tid])
        /\ LET e == T[tid][l]
               Y == R!Step(tid, [S EXCEPT !.now = e.t, !.idx = l], e)
           IN /\ IF Y.st = -2 THEN FALSE ELSE S' = Y
              /\ IF l = Len(T[tid]) THEN PrintT(<<"ACCEPTED", tid, l>>) ELSE TRUE
        /\ l' = l + 1 /\ UNCHANGED tid

vars == <<tid, l, S>>
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
