---------------------------- MODULE ConfigTrace -----------------------------
(* Configurations loaded by the real code, judged by Config.tla.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.VERIF_IN)
VARIABLES n, C
M == INSTANCE Config

Set(q) == {q[i] : i \in DOMAIN q}
\* JSON arrays of strings are sequences already; sets were written as arrays
In(c) == [c EXCEPT !.files = [d \in DOMAIN c.files |-> Set(c.files[d])]]
Out(s) == {<<s[i].p, s[i].v>> : i \in DOMAIN s}

Init == \E k \in DOMAIN Cases : n = k /\ C = In(Cases[k])
Ok == LET E == TLCEval([i \in DOMAIN C.stages |-> M!Evaluated(i)])
          refuse == \E i \in DOMAIN E : M!Refuse(i, E[i])
          open   == \E i \in DOMAIN E : M!Open(i, E[i]) IN
      /\ ~C.panic
      /\ C.cwd                                              \* working directory restored
      /\ IF C.err THEN refuse \/ open
         ELSE /\ ~refuse
              /\ Len(C.out) = Len(C.stages)
              /\ \A i \in DOMAIN E : \/ M!Get(E[i], <<"disable">>) = "true" /\ <<<<"disable">>, "true">> \in Out(C.out[i].set)
                                     \/ Out(C.out[i].set) = M!Effective(i, E[i])
              /\ \A i \in DOMAIN E : C.out[i].n = i /\ C.out[i].file = C.stages[i].abs
Next == n > 0 /\ (IF Ok THEN TRUE ELSE PrintT(<<"BAD", n>>)) /\ n' = 0 /\ UNCHANGED C
Spec == Init /\ [][Next]_<<n, C>>
=============================================================================
