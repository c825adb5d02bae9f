---------------------------- MODULE RemoteTrace -----------------------------
(* Is a recorded execution of a real remote instance a behaviour of Remote.tla? *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
In == JsonDeserialize(IOEnv.VERIF_IN)
Trs == In.traces
VARIABLES tid, l, S
R(i) == INSTANCE Remote WITH Tol <- In.tol, C <- [Trs[i].c EXCEPT !.local = {Trs[i].c.local[k] : k \in DOMAIN Trs[i].c.local}]
Init == tid \in DOMAIN Trs /\ l = 1 /\ S = R(tid)!Init
Next == /\ l <= Len(Trs[tid].ev)
        /\ LET r == R(tid)!Act(S, Trs[tid].ev[l])
           IN r.ok /\ S' = r.S
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ PrintT(<<IF l = Len(Trs[tid].ev) THEN "ACCEPTED" ELSE "AT", tid, l>>)
Spec == Init /\ [][Next]_<<tid, l, S>>
=============================================================================
