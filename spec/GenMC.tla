------------------------------- MODULE GenMC --------------------------------
(* All short histories of copying a generator and calling copies, to be replayed. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS K, M
VARIABLES hist, copies
Init == hist = <<0>> /\ copies = 1       \* 0: a new copy; x: call copy x
Next == /\ Len(hist) < K
        /\ \/ copies < M /\ hist' = Append(hist, 0) /\ copies' = copies + 1
           \/ \E x \in 1..copies : hist' = Append(hist, x) /\ UNCHANGED copies
        /\ Len(hist') = K => PrintT(<<"H", hist'>>)
Spec == Init /\ [][Next]_<<hist, copies>>
=============================================================================
