---------------------------- MODULE TrxFileTrace ----------------------------
(* Trx files loaded by the real code, judged by TrxFile.tla.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.VERIF_IN)
VARIABLES n, C
M == INSTANCE TrxFile

FileOk(i) == LET o == C.out.files[i] IN
  /\ o.stmts = M!Statements(i)
  /\ o.ddl = M!IsDdl(i)
KeysOk == /\ DOMAIN C.out.keys = M!AllKeys
          /\ \A k \in M!AllKeys : C.out.keys[k] = M!KeyScope(k)
Ok == /\ ~C.panic
      /\ IF C.err THEN M!Refuse \/ M!Open
         ELSE /\ ~M!Refuse \/ M!Open
              /\ M!Open \/ (/\ C.out.order = [i \in DOMAIN C.files |-> C.files[i].name]
                            /\ \A i \in DOMAIN C.files : FileOk(i)
                            /\ KeysOk)
Init == \E k \in DOMAIN Cases : n = k /\ C = Cases[k]
Next == n > 0 /\ (IF Ok THEN TRUE ELSE PrintT(<<"BAD", n>>)) /\ n' = 0 /\ UNCHANGED C
Spec == Init /\ [][Next]_<<n, C>>
=============================================================================
