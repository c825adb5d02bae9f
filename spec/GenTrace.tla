----------------------------- MODULE GenTrace -------------------------------
(* Values recorded from the real generators, judged by Gen.tla.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, Json, IOUtils
Cases == JsonDeserialize(IOEnv.VERIF_IN)
G == INSTANCE Gen

VARIABLES i, l, n       \* case, next operation, calls of each copy
C == Cases[i]
Bad == PrintT(<<"BAD", i>>)

Distinct(calls) == Cardinality(UNION {{calls[c][j].v[1] : j \in DOMAIN calls[c]} : c \in DOMAIN calls})
                   = MapThenSumSet(LAMBDA c : Len(calls[c]), DOMAIN calls)
ConcOk == /\ \A c \in DOMAIN C.conc : \A j \in DOMAIN C.conc[c] :
               LET o == C.conc[c][j] IN G!Sequential(C.name) \/ G!ValueOk(C.name, C.p, C.big, o.v, 1, o.rc)
          /\ G!Sequential(C.name) =>
               \A x \in 0..(C.copies - 1) :
                 G!AllCallsOk(C.name, C.p, TLCEval([c \in DOMAIN C.conc |-> LET s == TLCEval(SelectSeq(C.conc[c], LAMBDA o : o.x = x)) IN [j \in DOMAIN s |-> s[j].v]]))
          /\ G!Unique(C.name, C.p) => Distinct(C.conc)
SeqUnique == G!Unique(C.name, C.p) => LET s == SelectSeq(C.ops, LAMBDA o : ~o.copy) IN Distinct(<<s>>)

Init == i \in DOMAIN Cases /\ l = 1 /\ n = <<>>
Next ==
  /\ l > 0
  /\ UNCHANGED i
  /\ IF C.panic THEN Bad /\ l' = -1 /\ UNCHANGED n
     ELSE IF C.garbage \/ G!Refuse(C.name, C.p, C.big) \/ C.err
     THEN /\ l' = -1 /\ UNCHANGED n
          /\ (~C.err \/ ~(C.garbage \/ ~G!Valid(C.name, C.p, C.big))) => Bad
     ELSE IF C.nfmt # G!Width(C.name, C.p) THEN Bad /\ l' = -1 /\ UNCHANGED n
     ELSE IF C.mode = "seq"
     THEN /\ l <= Len(C.ops)
          /\ LET o == C.ops[l] IN
             IF o.copy THEN n' = Append(n, 0) /\ l' = l + 1
             ELSE /\ n' = [n EXCEPT ![o.x + 1] = @ + 1]
                  /\ IF G!ValueOk(C.name, C.p, C.big, o.v, n[o.x + 1] + 1, o.rc) /\ (l = Len(C.ops) => SeqUnique) THEN l' = l + 1 ELSE Bad /\ l' = -1
     ELSE /\ l' = -1 /\ UNCHANGED n
          /\ IF C.mode = "conc" THEN ConcOk \/ Bad ELSE G!DistOk(C.name, C.p, C.count, C.n) \/ Bad
Spec == Init /\ [][Next]_<<i, l, n>>
=============================================================================
