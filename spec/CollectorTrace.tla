--------------------------- MODULE CollectorTrace ---------------------------
(* Did the real collector make exactly the reports of Collector.tla?  A case is *)
(* a history of operations with the reports observed after each of them.        *)
EXTENDS Collector, Json, IOUtils
Cases == JsonDeserialize(IOEnv.VERIF_IN)

\* observed reports of one operation as the specification writes them
Obs(rs) == [a \in DOMAIN rs |-> [k \in DOMAIN rs[a] |-> [h |-> rs[a][k].h, i |-> rs[a][k].i, v |-> rs[a][k].v]]]
SetOf(f) == {f[k] : k \in DOMAIN f}
\* reports may list the instances in any order
SameReps(x, y) == Len(x) = Len(y) /\ \A a \in DOMAIN x : Len(x[a]) = Len(y[a]) /\ SetOf(x[a]) = SetOf(y[a])

Op(S, o, n) == IF o.op = "c" THEN Collect(S, o.v, n)
               ELSE IF o.op = "recv" THEN Add(S, [h |-> o.h, i |-> o.i, v |-> o.v], n)
               ELSE [s |-> S, rep |-> <<>>]

RECURSIVE Run(_, _, _)
\* [s |-> state after ops, ok]
Run(S, ops, n) == IF ops = <<>> THEN [s |-> S, ok |-> TRUE]
                  ELSE LET r == Op(S, ops[1], n)
                       IN IF ~SameReps(r.rep, Obs(ops[1].reps)) THEN [s |-> S, ok |-> FALSE]
                          ELSE Run(r.s, Tail(ops), n)

RECURSIVE Fold(_, _, _)
\* operations whose reports are observed together: all reports
Fold(S, ops, n) == IF ops = <<>> THEN [s |-> S, rep |-> <<>>]
                   ELSE LET r == Op(S, ops[1], n) IN LET t == Fold(r.s, Tail(ops), n)
                        IN [s |-> t.s, rep |-> r.rep \o t.rep]

\* Stop: statistics not yet collected are; the last interval is waited for
\* (c.during arrive meanwhile) and what is incomplete then is reported as it is
StopOk(S, c) ==
  LET st == c.stop
      last == {Collect(S, st.v, c.n)} \cup (IF st.must THEN {} ELSE {[s |-> S, rep |-> <<>>]})
      Try(A) == LET D == Fold(A.s, st.during, c.n)
                    done == \E k \in 0..Len(st.during) : Final(Fold(A.s, SubSeq(st.during, 1, k), c.n).s)
                    F == IF Final(D.s) THEN [s |-> D.s, rep |-> <<>>] ELSE Force(D.s)
                IN /\ SameReps(A.rep \o D.rep \o F.rep, Obs(st.reps))
                   /\ st.ret = Final(D.s)
                   \* it does not wait longer than it has to
                   /\ st.ms <= (IF Final(A.s) THEN 0 ELSE IF Final(D.s) THEN st.lastat ELSE st.timeout) + st.tol
                   /\ (~Final(D.s) => st.ms >= st.timeout - 5)
  IN \E A \in last : Try(A)

SoundOk(c) ==
  LET reps == Obs(c.reps) IN Sound(reps, {[h |-> x.h, i |-> x.i, v |-> x.v] : x \in SetOf(c.sent)}, c.n)

CaseOk(c) == /\ ~c.panic /\ ~c.changed
             /\ IF c.free THEN SoundOk(c)
                ELSE LET r == Run(Start, c.ops, c.n) IN r.ok /\ (c.stop.on => StopOk(r.s, c) /\ c.stop.stopped = 1)

VARIABLE i
Init == i \in DOMAIN Cases
Next == i > 0 /\ (IF CaseOk(Cases[i]) THEN TRUE ELSE PrintT(<<"BAD", i>>)) /\ i' = -i
Spec == Init /\ [][Next]_i
=============================================================================
