------------------------------ MODULE DsnTrace ------------------------------
(* Connections of real runs of finch, judged by Dsn.tla.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.VERIF_IN)
VARIABLES n, C
M == INSTANCE Dsn

Set(q) == {q[i] : i \in DOMAIN q}
In(c) == [c EXCEPT !.ips = Set(c.ips), !.rds = Set(c.rds), !.names = Set(c.names), !.exist = Set(c.exist)]
Init == \E k \in DOMAIN Cases : n = k /\ C = In(Cases[k])

Rec(c) == [net |-> c.net, addr |-> c.addr, tls |-> c.tls, sni |-> c.sni, cert |-> c.cert, user |-> c.user, pw |-> c.pw, db |-> c.db]
Tests == SelectSeq(C.conns, LAMBDA c : c.stages = <<>>)
Of(i) == SelectSeq(C.conns, LAMBDA c : c.stages = <<i>>)
InTime(i, c) == M!Limit(i) = 0 \/ (c.ms >= 0 /\ c.ms <= M!Limit(i))
\* the database of the command line can also be chosen after connecting
UseOk(i, c) == \A k \in DOMAIN c.use : c.use[k] = C.cli.db
\* stage i connected: its test connection and those of its clients are all the same
Good(i) == /\ ~M!Refuse(i)
           /\ Len(Of(i)) \in 2..C.clients    \* clients of a group can share one, one after the other
           /\ \E r \in M!Conns(i) : /\ r.tls # "fail" /\ Rec(Tests[i]) = r
                                    /\ \A j \in DOMAIN Of(i) : Rec(Of(i)[j]) = r
           /\ \A j \in DOMAIN Of(i) : UseOk(i, Of(i)[j])
           /\ InTime(i, Tests[i]) /\ \A j \in DOMAIN Of(i) : InTime(i, Of(i)[j])
\* stage i did not; none was run after it
Failed(i) == /\ \A k \in i..Len(C.stages) : Of(k) = <<>>
             /\ C.rc # 0
             /\ \/ M!Refuse(i) /\ Len(Tests) = i - 1
                \/ /\ Len(Tests) >= i
                   /\ \E r \in M!Conns(i) : r.tls = "fail" /\ \A j \in i..Len(Tests) : Rec(Tests[j]) = r /\ InTime(i, Tests[j])
Ok == /\ ~\E p \in DOMAIN C.passwords : M!Contains(C.output, C.passwords[p])
      /\ ~C.panic
      /\ \A k \in DOMAIN C.conns : Len(C.conns[k].stages) <= 1
      /\ \/ /\ C.rc = 0 /\ Len(Tests) = Len(C.stages)
            /\ \A i \in DOMAIN C.stages : Good(i)
         \/ \E i \in DOMAIN C.stages : Failed(i) /\ \A k \in 1..(i - 1) : Good(k)
Next == n > 0 /\ (IF Ok THEN TRUE ELSE PrintT(<<"BAD", n>>)) /\ n' = 0 /\ UNCHANGED C
Spec == Init /\ [][Next]_<<n, C>>
=============================================================================
