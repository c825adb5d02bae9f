------------------------------- MODULE Alloc -------------------------------
(***************************************************************************)
(* How a stage's trx list and workload section become execution groups,    *)
(* client groups and clients, and which statements each client executes    *)
(* (docs: benchmark/workload.md, principles P1-P11 and auto-allocation).   *)
(*                                                                         *)
(* A stage here is a record                                                *)
(*   trx      : sequence of [name, stmts]                                  *)
(*   workload : sequence of [group, clients, iter, ic, ieg, trx, rt, ...]  *)
(* where a statement is a record with its first word in field w.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

DDLWords  == {"ALTER", "CREATE", "DROP", "RENAME", "TRUNCATE"}
ReadWords == {"SELECT"}
WriteWords == {"INSERT", "UPDATE", "DELETE", "REPLACE"}
BeginWords == {"BEGIN", "START"}

StmtDDL(s) == s.w \in DDLWords

\* class of a statement, as counted in statistics
StmtClass(s) == CASE s.w \in ReadWords  -> "read"
                  [] s.w \in WriteWords -> "write"
                  [] s.w = "COMMIT"     -> "commit"
                  [] OTHER              -> "other"

TrxIsDDL(t) == \E i \in DOMAIN t.stmts : StmtDDL(t.stmts[i])

TrxNo(stg, name) == CHOOSE i \in DOMAIN stg.trx : stg.trx[i].name = name

NamesDDL(stg, names) == \E i \in DOMAIN names : TrxIsDDL(stg.trx[TrxNo(stg, names[i])])

AllTrx(stg) == [i \in DOMAIN stg.trx |-> stg.trx[i].name]

DefaultCG == [group |-> "", clients |-> 1, iter |-> 0, ic |-> 0, ieg |-> 0,
              trx |-> <<>>, rt |-> 0, db |-> "", nostats |-> FALSE,
              rates |-> [q |-> 0, t |-> 0, qc |-> 0, tc |-> 0, qe |-> 0, te |-> 0]]

(* An omitted workload: every DDL trx alone, consecutive DML trx together. *)
RECURSIVE AutoFrom(_, _, _)
AutoFrom(stg, i, acc) ==
  IF i > Len(stg.trx) THEN acc
  ELSE LET t == stg.trx[i]
           n == Len(acc)
           joins == /\ ~TrxIsDDL(t) /\ i > 1 /\ ~TrxIsDDL(stg.trx[i-1])
       IN IF joins
          THEN AutoFrom(stg, i+1, [acc EXCEPT ![n].trx = Append(@, t.name)])
          ELSE AutoFrom(stg, i+1, Append(acc, [DefaultCG EXCEPT !.trx = <<t.name>>]))

RawWorkload(stg) == IF stg.workload = <<>> THEN AutoFrom(stg, 1, <<>>) ELSE stg.workload

(* Defaults: all trx in trx order, one iteration with DDL, one client.     *)
FillCG(stg, cg) ==
  LET names == IF cg.trx = <<>> THEN AllTrx(stg) ELSE cg.trx
      ddl   == NamesDDL(stg, names)
  IN [cg EXCEPT !.trx = names,
                !.clients = IF @ = 0 THEN 1 ELSE @,
                !.iter = IF ddl /\ @ = 0 THEN 1 ELSE @]

Filled(stg) == LET w == RawWorkload(stg) IN [i \in DOMAIN w |-> FillCG(stg, w[i])]

(* Does client group i join the execution group of client group i-1?       *)
Joins(stg, w, i) ==
  /\ i > 1
  /\ \/ w[i].group # "" /\ w[i].group = w[i-1].group
     \/ /\ w[i].group = "" /\ w[i-1].group = ""
        /\ ~NamesDDL(stg, w[i].trx) /\ ~NamesDDL(stg, w[i-1].trx)

RECURSIVE GroupFrom(_, _, _, _)
GroupFrom(stg, w, i, acc) ==
  IF i > Len(w) THEN acc
  ELSE IF Joins(stg, w, i)
       THEN GroupFrom(stg, w, i+1, [acc EXCEPT ![Len(acc)] = Append(@, w[i])])
       ELSE GroupFrom(stg, w, i+1, Append(acc, <<w[i]>>))

ExecGroups(stg) == GroupFrom(stg, Filled(stg), 1, <<>>)

(* The flat statement list of a client group: every statement of every     *)
(* assigned trx, in order.  tno: which assigned trx; first: trx boundary;   *)
(* pl: position of the statement whose prepared statement is used.          *)
RECURSIVE FlatFrom(_, _, _, _)
FlatFrom(stg, names, k, acc) ==
  IF k > Len(names) THEN acc
  ELSE LET t   == stg.trx[TrxNo(stg, names[k])]
           off == Len(acc)
           ent == [i \in DOMAIN t.stmts |->
                     [trx |-> t.name, tno |-> k, first |-> (i = 1),
                      sno |-> i, ddl |-> StmtDDL(t.stmts[i]),
                      cls |-> StmtClass(t.stmts[i]),
                      pl |-> off + t.stmts[i].pg,
                      s |-> t.stmts[i]]]
       IN FlatFrom(stg, names, k+1, acc \o ent)

Flat(stg, cg) == FlatFrom(stg, cg.trx, 1, <<>>)

(* The plan of a stage: execution groups of client groups, each with its    *)
(* flat statement list.                                                     *)
StagePlan(stg) ==
  LET egs == ExecGroups(stg)
  IN [e \in DOMAIN egs |->
        [g \in DOMAIN egs[e] |-> [cg |-> egs[e][g], flat |-> Flat(stg, egs[e][g])]]]

AllPlans(cfgs) == [i \in DOMAIN cfgs |->
                     [s \in DOMAIN cfgs[i].stages |-> StagePlan(cfgs[i].stages[s])]]
=============================================================================
