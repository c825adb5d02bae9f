------------------------------ MODULE HistoMC -------------------------------
(* All short sequences of operations on statistics, printed to be replayed.     *)
EXTENDS Integers, Sequences, TLC
CONSTANTS K, D
\* <<operation, value, other value / type, time>>
Ops == {<<"rec", x, t, d>> : x \in 1..2, t \in {1, 3}, d \in 1..D} \cup {<<"err", x, 1, 0>> : x \in 1..2}
       \cup {<<o, x, 3 - x, 0>> : o \in {"comb", "copy"}, x \in 1..2} \cup {<<"reset", x, 0, 0>> : x \in 1..2}
VARIABLE hist
Init == hist = <<>>
Next == Len(hist) < K /\ \E op \in Ops : hist' = Append(hist, op) /\ (Len(hist') = K => PrintT(<<"H", hist'>>))
Spec == Init /\ [][Next]_hist
=============================================================================
