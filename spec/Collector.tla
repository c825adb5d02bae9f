----------------------------- MODULE Collector ------------------------------
(***************************************************************************)
(* The statistics collector: entries of the local and the remote instances *)
(* are buffered and reported interval by interval.                         *)
(* An entry: [h |-> host, i |-> interval, v |-> content].  The state:      *)
(*   no   interval being filled      buf  its entries, in order of arrival *)
(*   li   last interval collected locally                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Start == [no |-> 1, buf |-> <<>>, li |-> 0]
Flush(S) == [s |-> [S EXCEPT !.no = @ + 1, !.buf = <<>>], rep |-> <<S.buf>>]
Hosts(buf) == {buf[k].h : k \in DOMAIN buf}

\* an entry arrives; n instances make an interval complete.  Result: [s, rep]:
\* new state and the reports made, in order
Add(S, x, n) ==
  IF x.i < S.no THEN [s |-> S, rep |-> <<>>]                               \* too late
  ELSE LET F == IF x.i > S.no /\ S.buf # <<>> THEN Flush(S) ELSE [s |-> S, rep |-> <<>>]
           A == [F.s EXCEPT !.no = x.i]
       IN IF x.h \in Hosts(A.buf) THEN [s |-> A, rep |-> F.rep]            \* received again
          ELSE LET B == [A EXCEPT !.buf = Append(@, x)]
               IN IF Len(B.buf) < n THEN [s |-> B, rep |-> F.rep]
                  ELSE LET G == Flush(B) IN [s |-> G.s, rep |-> F.rep \o G.rep]

\* the local instance's statistics since the last time
Collect(S, v, n) == Add([S EXCEPT !.li = @ + 1], [h |-> "local", i |-> S.li + 1, v |-> v], n)

\* nothing left to wait for at the end
Final(S) == S.no > S.li /\ S.buf = <<>>
Force(S) == IF S.buf = <<>> THEN [s |-> S, rep |-> <<>>] ELSE Flush(S)

(* ---- properties of a sequence of reports, given everything that was sent ---- *)
Increasing(reps) == \A a, b \in DOMAIN reps : a < b => reps[a][1].i < reps[b][1].i
Pure(reps) == \A a \in DOMAIN reps :
                /\ reps[a] # <<>>
                /\ \A k \in DOMAIN reps[a] : reps[a][k].i = reps[a][1].i
                /\ \A j, k \in DOMAIN reps[a] : j # k => reps[a][j].h # reps[a][k].h
Sent(reps, sent) == \A a \in DOMAIN reps : \A k \in DOMAIN reps[a] : reps[a][k] \in sent
Sound(reps, sent, n) == /\ Pure(reps) /\ Increasing(reps) /\ Sent(reps, sent)
                        /\ \A a \in DOMAIN reps : Len(reps[a]) <= n
=============================================================================
