---------------------------- MODULE CollectorMC -----------------------------
(* All histories of K arrivals for N instances: the specification itself is     *)
(* checked, and every history is printed to be replayed in the real collector.  *)
EXTENDS Collector
CONSTANTS N, K, MaxI, Emit
Remotes == SubSeq(<<"r1", "r2", "r3">>, 1, N - 1)
Ops == {<<"c", 0>>} \cup {<<Remotes[r], i>> : r \in DOMAIN Remotes, i \in 1..MaxI}
VARIABLES hist, S, reps, sent
vars == <<hist, S, reps, sent>>
Init == hist = <<>> /\ S = Start /\ reps = <<>> /\ sent = {}
Next == /\ Len(hist) < K
        /\ \E op \in Ops :
             LET k == Len(hist) + 1
                 r == IF op[1] = "c" THEN Collect(S, k, N) ELSE Add(S, [h |-> op[1], i |-> op[2], v |-> k], N)
             IN /\ hist' = Append(hist, op) /\ S' = r.s /\ reps' = reps \o r.rep
                /\ sent' = sent \cup {IF op[1] = "c" THEN [h |-> "local", i |-> S.li + 1, v |-> k] ELSE [h |-> op[1], i |-> op[2], v |-> k]}
        /\ (Emit /\ Len(hist') = K) => PrintT(<<"H", hist'>>)
Spec == Init /\ [][Next]_vars
ReportsSound == Sound(reps, sent, N)
\* a complete interval has been reported; what is buffered belongs to one interval
NoneComplete == Len(S.buf) < N /\ \A k \in DOMAIN S.buf : S.buf[k].i = S.no
\* every entry that came in time is reported or still buffered
InTime == \A x \in sent : x.i >= S.no => \E k \in DOMAIN S.buf : S.buf[k].h = x.h /\ S.buf[k].i = x.i
\* nothing of a past interval is reported later
Past == [][\A a \in DOMAIN reps' : a > Len(reps) => reps'[a][1].i >= S.no]_vars
\* an interval is incomplete only because a later one showed up
Incomplete == \A a \in DOMAIN reps : Len(reps[a]) < N => \E x \in sent : x.i > reps[a][1].i
=============================================================================
