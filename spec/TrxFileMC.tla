----------------------------- MODULE TrxFileMC ------------------------------
(* Every statement with up to L uses of data keys whose names are prefixes of each   *)
(* other, explicit calls and @PREV, in and outside of a CSV template, to be loaded.   *)
EXTENDS Integers, Sequences, TLC
CONSTANT L
VARIABLES uses, prep, copies, scope
Use == [k : {"@d", "@d2"}, call : BOOLEAN, csv : BOOLEAN] \cup [k : {"@PREV"}, call : {FALSE}, csv : BOOLEAN]
Init == uses = <<>> /\ prep \in BOOLEAN /\ copies \in 1..2 /\ scope \in {"", "row", "stage"}
Next == /\ Len(uses) < L
        /\ \E u \in Use : uses' = Append(uses, u)
        /\ UNCHANGED <<prep, copies, scope>>
        /\ PrintT(<<"U", [i \in DOMAIN uses' |-> <<uses'[i].k, uses'[i].call, uses'[i].csv>>], prep, copies, scope>>)
Spec == Init /\ [][Next]_<<uses, prep, copies, scope>>
=============================================================================
