---------------------------- MODULE HistoTrace ------------------------------
(* Records of the real statistics and reporters judged by Histo.tla: three      *)
(* values and operations on them with what was observed, or reports.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
In == JsonDeserialize(IOEnv.VERIF_IN)
Cases == In.cases
H == INSTANCE Histo WITH Hi <- In.hi, Mid <- In.mid

VARIABLES i, l, S

Op(o) ==
  CASE o.op = "rec" -> [S EXCEPT ![o.x] = H!Record(@, o.t, o.d, o.cnt)]
    [] o.op = "err" -> [S EXCEPT ![o.x] = H!Error(@, o.code, o.cnt)]
    [] o.op = "comb" -> [S EXCEPT ![o.x] = H!Combine(@, S[o.y])]
    [] o.op = "copy" -> [S EXCEPT ![o.x] = S[o.y]]
    [] o.op = "reset" -> [S EXCEPT ![o.x] = H!Empty]
    [] OTHER -> S
OpOk(o) == /\ (o.full => \A k \in 1..3 : H!StateOk(S'[k], o.obs[k]))
           /\ (o.op = "pct" => H!PctsOk(S'[o.x].ev[o.t], o.p, o.q))

\* a value from <<type, time, count>> and <<code, count>>
RECURSIVE Val(_, _)
Val(x, ev) == IF ev = <<>> THEN x ELSE Val(TLCEval(H!Record(x, ev[1].t, ev[1].d, ev[1].n)), Tail(ev))
RECURSIVE Errs(_, _)
Errs(x, er) == IF er = <<>> THEN x ELSE Errs(TLCEval(H!Error(x, er[1][1], er[1][2])), Tail(er))
Ins(r) == TLCEval([k \in DOMAIN r |-> [host |-> r[k].host, clients |-> r[k].clients, interval |-> r[k].interval, sec2 |-> r[k].sec2, rt2 |-> r[k].rt2,
                                       x |-> Errs(Val(H!Empty, r[k].ev), r[k].er)]])
Hosts(ins) == IF Len(ins) = 1 THEN {ins[1].host}
              ELSE {ToString(Len(ins)) \o " combined", "(" \o ToString(Len(ins)) \o " combined)"}
\* lines expected for one report: each instance and/or all combined
ReportOk(r, ps, each, comb) ==
  LET ins == Ins(r.ins)
      eachN == IF each THEN Len(ins) ELSE 0
      combN == IF comb /\ (Len(ins) > 1 \/ ~each) THEN 1 ELSE 0
  IN /\ Len(r.lines) = eachN + combN
     /\ \A k \in 1..eachN : H!LineOk(r.lines[k], <<ins[k]>>, ps, {ins[k].host})
     /\ combN = 1 => H!LineOk(r.lines[eachN + 1], ins, ps, Hosts(ins))

Bad == PrintT(<<"BAD", i>>)
Init == i \in DOMAIN Cases /\ l = 1 /\ S = [k \in 1..3 |-> H!Empty]
Next == /\ l > 0 /\ UNCHANGED i
        /\ IF Cases[i].panic THEN Bad /\ l' = -1 /\ UNCHANGED S
           ELSE IF Cases[i].kind = "ops"
           THEN /\ l <= Len(Cases[i].ops)
                /\ S' = Op(Cases[i].ops[l])
                /\ IF OpOk(Cases[i].ops[l]) THEN l' = l + 1 ELSE Bad /\ l' = -1
           ELSE /\ UNCHANGED S
                /\ l <= Len(Cases[i].reports)
                /\ IF /\ ReportOk(Cases[i].reports[l], Cases[i].ps, Cases[i].each, Cases[i].comb)
                      /\ \A k \in DOMAIN Cases[i].headers : Cases[i].headers[k] = H!Header(Cases[i].names)
                   THEN l' = l + 1 ELSE Bad /\ l' = -1
Spec == Init /\ [][Next]_<<i, l, S>>
=============================================================================
