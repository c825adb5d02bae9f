-------------------------------- MODULE Run --------------------------------
(***************************************************************************)
(* Execution of stages by one finch instance: execution groups, clients,   *)
(* iterations and their limits, connections and error recovery, data keys  *)
(* and their scopes, saved columns, data limits, runtime limits, CTRL-C,   *)
(* and the statistics that must come out.                                  *)
(*                                                                         *)
(* The whole state is one record S.  An action is a pair of operators:     *)
(* a guard XOk(S, e), built from labelled conditions G(label, cond), and   *)
(* an effect X(S, e), for an event e observed at the MySQL server or the   *)
(* statistics reporter.  RunTrace.tla feeds recorded events; RunMC.tla     *)
(* generates every possible event of a small configuration.                *)
(*                                                                         *)
(* Linearisation: an iteration starts with its first statement; a client's *)
(* end is not an event, so "all clients of the group have finished" is     *)
(* checked, for every client, when something happens that requires it.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Alloc

CONSTANTS Cfgs,          \* sequence of scenario configurations
          Plans,         \* their allocation: AllPlans(Cfgs), evaluated once
          Blame(_),      \* called with the label of a failing guard; FALSE
          Later(_, _, _),\* does this client execute a statement later on?
          Tol,           \* ms: statements may still start this long after a deadline
          StopTol        \* ms: process must have ended this long after CTRL-C

G(label, cond) == IF cond THEN TRUE ELSE Blame(label)

\* ---- static data, evaluated once ----------------------------------------

Stg(i, s)      == Cfgs[i].stages[s]
GroupsOf(i, s) == Plans[i][s]
Runs(i, s)     == ~Stg(i, s).disable /\ ~Cfgs[i].test

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
RECURSIVE SumF(_, _)
SumF(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + SumF(f, D \ {x})

\* ---- error handling table (docs: benchmark/error-handling.md) -----------

KeepConn  == {1213, 1317, 1062, 1205, 1290, 1836}
NeedsRollback == {1205, 1290, 1836}
\* documented in the code only: these never stop a client, also on DDL
Special == KeepConn \cup {1046, 1064, 1146}

\* ---- data scopes ---------------------------------------------------------

SingleScopes == {"statement", "row", "trx", "iter", "client"}
SharedScopes == {"client-group", "exec-group", "workload"}
OneScopes    == {"stage", "global"}

\* default scopes: statement; trx for saved columns; row in a CSV substitution
EffScope(K, row) == IF K.scope # "" THEN K.scope
                    ELSE IF K.gen = "col" THEN "trx"
                    ELSE IF row > 0 THEN "row" ELSE "statement"

\* Which generator instance a use refers to.  c = <<cg, n>>.
Inst(scope, k, st, eg, c, tno, pos, j) ==
  CASE scope \in {"statement", "row"} -> <<"s", k, eg, c, pos>>
    [] scope = "trx"                  -> <<"t", k, eg, c, tno>>
    [] scope \in {"iter", "client"}   -> <<"c", k, eg, c>>
    [] scope = "client-group"         -> <<"g", k, eg, c[1]>>
    [] scope = "exec-group"           -> <<"e", k, eg>>
    [] scope = "workload"             -> <<"w", k>>
    [] scope = "stage"                -> <<"S", k>>
    [] scope = "global"               -> <<"G", k>>
    [] scope = "value"                -> <<"v", k, eg, c, pos, j>>

Gen0 == [cp |-> 0, cv |-> "", n |-> 0, last |-> 0, by |-> <<>>, given |-> {}, calls |-> {}]

\* ---- initial states ------------------------------------------------------

Client0 == [conn |-> 0, pc |-> 0, it |-> 0, tc |-> 0, sc |-> 0, cc |-> 1,
            pend |-> FALSE, dead |-> FALSE, rb |-> "no", err |-> FALSE, lidx |-> 0,
            sz |-> FALSE, tq |-> 0, tr |-> 0, began |-> FALSE]

ClientIds(i, s, e) == IF e = 0 THEN {}
                      ELSE UNION {{<<g, n>> : n \in 1..GroupsOf(i, s)[e][g].cg.clients}
                                     : g \in DOMAIN GroupsOf(i, s)[e]}

ZeroN == [read |-> 0, write |-> 0, commit |-> 0, other |-> 0]

InitS == [st |-> 0, eg |-> 0, cl |-> <<>>,
          ic |-> <<>>, ieg |-> 0,
          glo |-> 0, ghi |-> -1,          \* bounds (ms) on the start of the group
          slo |-> 0, shi |-> -1,          \* ... of the stage
          conns |-> <<>>, vals |-> <<>>, cps |-> {},
          col |-> <<>>, lim |-> <<>>, pfail |-> 0, pnew |-> 0,
          ex |-> <<>>, er |-> <<>>, lossy |-> FALSE,
          dlo |-> <<>>, dhi |-> <<>>,
          rp |-> [n |-> <<>>, er |-> <<>>, cnt |-> 0, last |-> 0, min |-> -1, max |-> -1],
          rn |-> <<>>,                    \* statements per rate limit
          rs |-> FALSE, lr |-> 0, intr |-> -1, now |-> 0, idx |-> 0]

KeepGlobal(f) == [x \in {y \in DOMAIN f : y[1] = "G"} |-> f[x]]

EnterStage(i, S, s) ==
  [S EXCEPT !.st = s, !.eg = 0, !.cl = <<>>, !.ic = <<>>, !.ieg = 0,
            !.slo = S.now, !.shi = -1, !.glo = S.now, !.ghi = -1,
            !.vals = KeepGlobal(@), !.col = <<>>, !.lim = <<>>, !.pfail = S.pnew,
            !.ex = <<>>, !.er = <<>>, !.lossy = FALSE, !.rs = FALSE, !.lr = S.now, !.rn = <<>>,
            !.dlo = <<>>, !.dhi = <<>>,
            !.rp = [n |-> <<>>, er |-> <<>>, cnt |-> 0, last |-> 0, min |-> -1, max |-> -1]]

EnterGroup(i, S, e) ==
  [S EXCEPT !.eg = e,
            !.cl = [c \in ClientIds(i, S.st, e) |-> Client0],
            !.ic = [g \in DOMAIN GroupsOf(i, S.st)[e] |-> 0],
            !.ieg = 0, !.glo = S.lr, !.ghi = -1, !.pfail = S.pnew]

\* ---- positions in a client's statement list ------------------------------

FlatOf(i, S, c) == GroupsOf(i, S.st)[S.eg][c[1]].flat
CGOf(i, S, c)   == GroupsOf(i, S.st)[S.eg][c[1]].cg

Visible(f, p) == f[p].s.idle = 0
RECURSIVE NextVis(_, _)
NextVis(f, p) == IF p > Len(f) THEN 0 ELSE IF Visible(f, p) THEN p ELSE NextVis(f, p+1)
\* next statement to execute: after p, or the first one of a new iteration
NextPos(f, p)  == LET q == NextVis(f, p+1) IN IF q = 0 THEN NextVis(f, 1) ELSE q
LastVis(f, p)  == NextVis(f, p+1) = 0
IdleBefore(f, p, q) == SumSeq([k \in 1..(q-p-1) |-> f[p+k].s.idle])
FirstsIn(f, p, q) == Cardinality({k \in (p+1)..q : f[k].first})
PrepList(f) == LET P == {p \in DOMAIN f : f[p].s.prep /\ f[p].pl = p}
                   RECURSIVE L(_)
                   L(p) == IF p > Len(f) THEN <<>>
                           ELSE (IF p \in P THEN << <<f[p].trx, f[p].s.sid>> >> ELSE <<>>) \o L(p+1)
               IN L(1)

Count(q, x) == Cardinality({k \in DOMAIN q : q[k] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Count(a, a[k]) = Count(b, a[k])

\* ---- limits --------------------------------------------------------------

IterLeft(i, S, c) ==
  LET cg == CGOf(i, S, c)
  IN /\ cg.iter = 0 \/ S.cl[c].it < cg.iter
     /\ cg.ic = 0   \/ S.ic[c[1]] < cg.ic
     /\ cg.ieg = 0  \/ S.ieg < cg.ieg

LimId(f, p) == <<f[p].trx, f[p].sno>>
LimOf(S, id) == IF id \in DOMAIN S.lim THEN S.lim[id] ELSE [tot |-> 0, ents |-> <<>>, since |-> 0]
\* rows that were certainly counted when client c last checked
SureRows(S, id, c) ==
  SumSeq([k \in DOMAIN LimOf(S, id).ents |->
            LET x == LimOf(S, id).ents[k]
            IN IF x.c = c \/ (x.sure > 0 /\ x.sure < S.cl[c].lidx) THEN x.aff ELSE 0])

\* a deadline that certainly/possibly passed; times in ms
TimeUp(i, S, c, t) ==
  \/ S.intr >= 0
  \/ Stg(i, S.st).rt > 0 /\ t >= S.slo + Stg(i, S.st).rt - 2
  \/ CGOf(i, S, c).rt > 0 /\ t >= S.glo + CGOf(i, S, c).rt - 2

TooLate(i, S, c, t) ==
  \/ S.intr >= 0 /\ t > S.intr + Tol
  \/ Stg(i, S.st).rt > 0 /\ S.shi >= 0 /\ t > S.shi + Stg(i, S.st).rt + Tol
  \/ CGOf(i, S, c).rt > 0 /\ S.ghi >= 0 /\ t > S.ghi + CGOf(i, S, c).rt + Tol

\* May client c have finished by time t?
MayStop(i, S, c, t) ==
  LET r == S.cl[c]
      f == FlatOf(i, S, c)
      p == NextPos(f, r.pc)
  IN \/ r.dead
     \/ TimeUp(i, S, c, t)
     \/ r.conn = 0 /\ S.pfail > 0
     \/ p = 0                               \* idles only
     \/ /\ ~r.pend
        /\ r.rb = "no"
        /\ \/ r.pc = 0 /\ ~IterLeft(i, S, c)
           \/ f[p].s.rows.on /\ f[p].s.rows.off + LimOf(S, LimId(f, p)).tot >= f[p].s.rows.max
           \/ r.sz

\* the label to report when client c should not have finished
StopLabel(i, S, c) ==
  IF Later(S.st, S.eg, c) THEN "seq"
  ELSE IF S.cl[c].err THEN "err"
  ELSE IF \E p \in DOMAIN FlatOf(i, S, c) :
            FlatOf(i, S, c)[p].s.rows.on \/ FlatOf(i, S, c)[p].s.size.on THEN "lim"
  ELSE IF ~S.cl[c].began THEN "start"
  ELSE IF S.cl[c].pend \/ S.cl[c].pc # 0 THEN "midstop"
  ELSE IF CGOf(i, S, c).iter > 0 \/ CGOf(i, S, c).ic > 0 \/ CGOf(i, S, c).ieg > 0 THEN "iter"
  ELSE IF CGOf(i, S, c).rt > 0 \/ Stg(i, S.st).rt > 0 THEN "time"
  ELSE "stop"

\* values of shared generators: all given out, none skipped
Contiguous(S) == \A x \in DOMAIN S.vals :
                    LET g == S.vals[x].given
                    IN \/ g = {} \/ x[1] = "G"
                       \/ Max(g) = Cardinality(g)
                       \* stage scope: explicit calls and at most one implicit first call
                       \/ x[1] = "S" /\ Max(g) = Cardinality(g) + 1

GroupDone(i, S, t) ==
  /\ \A c \in DOMAIN S.cl : MayStop(i, S, c, t) \/ Blame(StopLabel(i, S, c))
  /\ G("sc2", Stg(i, S.st).lossy \/ S.lossy \/ S.intr >= 0 \/ Contiguous(S))

\* Move to stage s, group e (e = 0: the beginning of the stage; s = number of
\* stages + 1: the end), if everything in between may be over.
RECURSIVE Reach(_, _, _, _, _)
Reach(i, S, s, e, t) ==
  IF S.st = s /\ S.eg = e THEN S
  ELSE IF S.st > s \/ (S.st = s /\ S.eg > e) THEN [S EXCEPT !.st = -1]
  ELSE IF S.st > 0 /\ Runs(i, S.st) /\ S.eg > 0 /\ ~GroupDone(i, S, t) THEN [S EXCEPT !.st = -2]
  ELSE IF S.st > 0 /\ Runs(i, S.st) /\ S.eg < Len(GroupsOf(i, S.st))
       THEN Reach(i, EnterGroup(i, S, S.eg + 1), s, e, t)
       ELSE IF S.st > 0 /\ Runs(i, S.st) /\ Stg(i, S.st).stats /\ ~S.rs /\ S.shi >= 0 /\ Blame("norep") = FALSE
            THEN [S EXCEPT !.st = -2]
       ELSE IF S.st + 1 > Len(Cfgs[i].stages)
            THEN IF s > Len(Cfgs[i].stages) THEN [S EXCEPT !.st = s, !.eg = e, !.cl = <<>>]
                 ELSE [S EXCEPT !.st = -1]
            ELSE Reach(i, EnterStage(i, S, S.st + 1), s, e, t)

\* ---- data values of a statement ------------------------------------------

ScopeLabel(sc, call, row) ==
  IF call \/ row \/ sc = "value" THEN "scx"
  ELSE IF sc \in SingleScopes THEN "sc1"
  ELSE IF sc \in SharedScopes THEN "sc2" ELSE "sc3"

NClients(i, s) == SumSeq([e \in DOMAIN GroupsOf(i, s) |->
                     SumSeq([g \in DOMAIN GroupsOf(i, s)[e] |-> GroupsOf(i, s)[e][g].cg.clients])])

\* v: one observed use [k, cp, n, prm, raw]; acc = [vals, cps, bad]
Use(i, S, c, r, pos, ent, j, v, acc) ==
  LET u   == ent.s.uses[j]
      K   == Stg(i, S.st).keys[u.k]
      sc  == EffScope(K, u.row)
      ins == Inst(sc, u.k, S.st, S.eg, c, ent.tno, pos, j)
      g   == IF ins \in DOMAIN acc.vals THEN acc.vals[ins] ELSE Gen0
      me  == IF <<S.eg, c>> \in DOMAIN g.by THEN g.by[<<S.eg, c>>] ELSE [it |-> 0, n |-> 0]
      \* first occurrence of a row scoped key in its row
      rowNew == sc = "row" /\ u.row > 0 /\
                ~\E k \in 1..(j-1) : ent.s.uses[k].k = u.k /\ ent.s.uses[k].row = u.row
      call == u.call
      lab == ScopeLabel(sc, call, rowNew \/ u.row > 0)
      cpOk == IF g.cp = 0 THEN v.cp \notin acc.cps ELSE v.cp = g.cp
      cnt == CASE sc = "trx" -> r.tc [] sc = "iter" -> r.it [] sc = "client" -> r.cc
               [] OTHER -> r.sc
      new == call \/ rowNew \/
             (CASE sc = "value"          -> TRUE
                [] sc \in SingleScopes   -> cnt > g.last
                [] sc \in SharedScopes   -> r.it > me.it
                [] sc \in OneScopes      -> g.n = 0)
      nOk == CASE sc \in SingleScopes \cup {"value"} -> v.n = (IF new THEN g.n + 1 ELSE g.n)
               [] sc \in SharedScopes ->
                    IF new THEN v.n > 0 /\ v.n \notin g.given ELSE v.n = me.n
               [] sc \in OneScopes ->
                    IF NClients(i, S.st) = 1 /\ sc = "stage" THEN v.n = (IF new THEN g.n + 1 ELSE g.n)
                    ELSE IF ~K.calls THEN v.n = 1
                    ELSE IF call THEN v.n > 0 /\ v.n \notin g.given
                    ELSE /\ v.n > 0 /\ v.n >= me.n
                         /\ \A x \in g.calls : x[1] < r.lidx => v.n >= x[2]
      prmOk == sc = "global" \/ v.prm = K.prm
      g2  == [g EXCEPT !.cp = v.cp, !.n = v.n, !.last = cnt,
                       !.by = IF sc \in SingleScopes \cup {"value"} THEN @
                              ELSE (<<S.eg, c>> :> [it |-> r.it, n |-> v.n]) @@ @,
                       !.given = IF sc \in SharedScopes \/ (sc \in OneScopes /\ call) THEN @ \cup {v.n} ELSE @,
                       !.calls = IF sc \in OneScopes /\ call THEN @ \cup {<<S.idx, v.n>>} ELSE @]
  IN IF acc.bad # "" THEN acc
     ELSE IF u.ix > 0   \* @PREV: a further value of the generator call before it
     THEN LET b == acc.prev IN
          IF v.k = u.k /\ v.k2 = u.k /\ v.cp = b.cp /\ v.n = b.n /\ v.ix = u.ix THEN acc
          ELSE [acc EXCEPT !.bad = lab]
     ELSE IF v.k # u.k THEN [acc EXCEPT !.bad = "text"]
     ELSE IF K.gen = "col"
     THEN \* the value saved last, read at the first use in each period of the scope
          LET sv == IF ins \in DOMAIN S.col THEN S.col[ins] ELSE "nil"
              cv == IF new THEN sv ELSE g.cv
              q  == IF K.quote /\ ~ent.s.prep /\ cv # "nil" THEN "'" \o cv \o "'" ELSE cv
          IN IF v.raw = q
             THEN [acc EXCEPT !.vals = (ins :> [g EXCEPT !.cv = cv, !.last = cnt]) @@ @]
             ELSE [acc EXCEPT !.bad = "save"]
     ELSE IF ~(v.k = v.k2 /\ v.ix = 0 /\ cpOk /\ nOk /\ prmOk) THEN [acc EXCEPT !.bad = lab]
     ELSE [acc EXCEPT !.vals = (ins :> g2) @@ @, !.cps = @ \cup {v.cp}, !.prev = v]

Acc0(S) == [vals |-> S.vals, cps |-> S.cps, bad |-> "", prev |-> [cp |-> 0, n |-> 0]]

RECURSIVE UseAll(_, _, _, _, _, _, _, _, _)
UseAll(i, S, c, r, pos, ent, vs, j, acc) ==
  IF j > Len(ent.s.uses) THEN acc
  ELSE UseAll(i, S, c, r, pos, ent, vs, j+1, Use(i, S, c, r, pos, ent, j, vs[j], acc))

\* ---- connections ---------------------------------------------------------

Conn0(db) == [db |-> db, preps |-> <<>>, cl |-> <<>>, eg |-> <<0, 0>>, dead |-> FALSE]

\* may this connection, last used by another client, be taken over?  Only from
\* a client of the same client group that has finished without an error.
Reusable(i, S, x, t) ==
  /\ ~S.conns[x].dead
  /\ S.conns[x].cl # <<>>
  /\ S.conns[x].eg = <<S.st, S.eg>>
  /\ LET o == S.conns[x].cl IN o \in DOMAIN S.cl /\ ~S.cl[o].pend /\ MayStop(i, S, o, t)

\* ---- rate limits ----------------------------------------------------------

(* The limits that cover client c: <<limit, rate>>; the limiter hands out at  *)
(* most one permission at once and `rate' per second from the stage start on. *)
Limits(i, S, c, begin) ==
  LET st == Stg(i, S.st)
      g1 == GroupsOf(i, S.st)[S.eg][1].cg.rates
      r  == CGOf(i, S, c).rates
      all == { <<<<"q", "stage">>, st.qps>>, <<<<"q", "eg", S.eg>>, g1.qe>>,
               <<<<"q", "cg", S.eg, c[1]>>, r.qc>>, <<<<"q", "cl", S.eg, c>>, r.q>> }
             \cup (IF ~begin THEN {} ELSE
             { <<<<"t", "stage">>, st.tps>>, <<<<"t", "eg", S.eg>>, g1.te>>,
               <<<<"t", "cg", S.eg, c[1]>>, r.tc>>, <<<<"t", "cl", S.eg, c>>, r.t>> })
  IN {x \in all : x[2] > 0}

RateCnt(S, k) == IF k \in DOMAIN S.rn THEN S.rn[k] ELSE 0

RateOk(i, S, c, begin, t) ==
  \A x \in Limits(i, S, c, begin) :
     (RateCnt(S, x[1]) + 1 - 2) * 1000 <= x[2] * (t - S.slo + 1)

CountRate(i, S, c, begin) ==
  LET L == {x[1] : x \in Limits(i, S, c, begin)}
  IN [k \in L |-> RateCnt(S, k) + 1] @@ S.rn

\* a client without any limit is not slowed by the limits of others
Free(i, S, c) ==
  /\ Stg(i, S.st).fast
  /\ Limits(i, S, c, \E k \in DOMAIN FlatOf(i, S, c) : FlatOf(i, S, c)[k].s.w \in {"BEGIN", "START"}) = {}
FreeOk(i, S, c, t) == ~Free(i, S, c) \/ t <= S.glo + 3 * Tol + 25 * S.cl[c].sc

\* ---- statement start -----------------------------------------------------
(* e = [c, t, st, eg, cl, trx, sid, ps, db, rs, rt, ri, rcn, vals]          *)

StartR(i, S, e) ==   \* the client record at the start of the statement
  LET r0 == S.cl[e.cl]
      f  == FlatOf(i, S, e.cl)
      p  == NextPos(f, r0.pc)
      newIter == r0.pc = 0
  IN [r0 EXCEPT !.pc = p, !.pend = TRUE, !.conn = e.c, !.began = TRUE,
                !.it = IF newIter THEN @ + 1 ELSE @,
                !.tc = @ + FirstsIn(f, IF newIter THEN 0 ELSE r0.pc, p),
                !.sc = @ + 1, !.tq = e.t]

StartOk(i, S, e) ==
  /\ G("ident", e.cl \in DOMAIN S.cl)
  /\ LET r0 == S.cl[e.cl]
         f  == FlatOf(i, S, e.cl)
         cg == CGOf(i, S, e.cl)
         p  == NextPos(f, r0.pc)
         r  == StartR(i, S, e)
         cn == S.conns[e.c]
         E(label) == IF r0.err THEN "err-" \o label ELSE label
         acc == UseAll(i, S, e.cl, r, p, f[p], e.vals, 1, Acc0(S))
     IN /\ G("order", p # 0 /\ ~r0.pend)
        /\ G(E("stop"), ~r0.dead)
        /\ G("err", r0.rb = "no")
        /\ G("lim", ~r0.sz)
        /\ G("time", ~TooLate(i, S, e.cl, e.t))
        /\ G(E("order"), f[p].trx = e.trx /\ f[p].s.sid = e.sid)
        /\ G("iter", r0.pc # 0 \/ IterLeft(i, S, e.cl))
        /\ G(E("conn"), e.c \in DOMAIN S.conns)
        /\ G(E("conn"), IF r0.conn # 0 THEN e.c = r0.conn /\ cn.cl = e.cl
                        ELSE ~cn.dead /\ (cn.cl = <<>> \/ Reusable(i, S, e.c, e.t)))
        /\ G(E("db"), e.db = (IF cg.db # "" THEN cg.db ELSE Stg(i, S.st).db))
        /\ G(E("prep"), e.ps = f[p].s.prep)
        /\ G(E("prep"), IF cn.cl # <<>> /\ cn.cl # e.cl THEN PrepList(f) = <<>>
                        ELSE SameBag(cn.preps, PrepList(f)))
        /\ G("idle", e.t >= r0.tr + IdleBefore(f, IF r0.pc = 0 THEN 0 ELSE r0.pc, p) - 1)
        /\ G("rate", RateOk(i, S, e.cl, f[p].s.w \in {"BEGIN", "START"}, e.t))
        /\ G("slow", FreeOk(i, S, e.cl, e.t))
        /\ G("rc", e.rs = r.sc /\ e.rt = r.tc /\ e.ri = r.it)
        /\ G(IF r0.err \/ r0.cc > 1 THEN "err-rc" ELSE "rc", e.rcn = r.cc)
        /\ G("text", Len(e.vals) = Len(f[p].s.uses))
        /\ G("lim", ~f[p].s.rows.on \/
                    f[p].s.rows.off + SureRows(S, LimId(f, p), e.cl) < f[p].s.rows.max)
        /\ G("lim", ~f[p].s.size.on \/ LimOf(S, LimId(f, p)).since < 6 + Cardinality(DOMAIN S.cl))
        /\ G(acc.bad, acc.bad = "")

Start(i, S, e) ==
  LET r0 == S.cl[e.cl]
      f  == FlatOf(i, S, e.cl)
      cg == CGOf(i, S, e.cl)
      p  == NextPos(f, r0.pc)
      r  == StartR(i, S, e)
      ni == r0.pc = 0
      acc == UseAll(i, S, e.cl, r, p, f[p], e.vals, 1, Acc0(S))
      old == IF f[p].trx \in DOMAIN S.ex THEN S.ex[f[p].trx] ELSE ZeroN
      id  == LimId(f, p)
  IN [S EXCEPT !.cl[e.cl] = [r EXCEPT !.err = FALSE],
               !.ic[e.cl[1]] = IF ni /\ cg.ic > 0 THEN @ + 1 ELSE @,
               !.ieg = IF ni /\ cg.ieg > 0 THEN @ + 1 ELSE @,
               !.conns[e.c].cl = e.cl,
               !.conns[e.c].eg = <<S.st, S.eg>>,
               !.vals = acc.vals, !.cps = acc.cps,
               !.rn = CountRate(i, S, e.cl, f[p].s.w \in {"BEGIN", "START"}),
               !.shi = IF @ < 0 THEN e.t ELSE @,
               !.ghi = IF @ < 0 THEN e.t ELSE @,
               !.pnew = 0,
               !.ex = IF cg.nostats THEN @ ELSE (f[p].trx :> [old EXCEPT ![f[p].cls] = @ + 1]) @@ @,
               \* rows limits: this client's earlier executions are now certainly counted
               !.lim = LET l1 == [x \in DOMAIN @ |->
                                   [@[x] EXCEPT !.ents = [k \in DOMAIN @ |->
                                      IF @[k].c = e.cl /\ @[k].sure = 0 THEN [@[k] EXCEPT !.sure = S.idx] ELSE @[k]]]]
                       IN IF f[p].s.size.on
                          THEN (id :> [LimOf(S, id) EXCEPT !.since = @ + 1]) @@ l1 ELSE l1]

\* ---- response ------------------------------------------------------------
(* e = [c, t, code, drop, aff, iid, nrows, row]                             *)

SaveInst(i, S, c, ent, k, pos) ==
  Inst(EffScope(Stg(i, S.st).keys[k], 0), k, S.st, S.eg, c, ent.tno, pos, 0)

RECURSIVE SaveAll(_, _, _, _, _, _, _, _)
SaveAll(i, S, c, ent, pos, row, j, acc) ==
  IF j > Len(ent.s.saves) THEN acc
  ELSE SaveAll(i, S, c, ent, pos, row, j+1,
         IF ent.s.saves[j] = "_" THEN acc
         ELSE (SaveInst(i, S, c, ent, ent.s.saves[j], pos) :> row[j]) @@ acc)

\* the response to a statement that was cut off (runtime, CTRL-C), or a connection
\* that its client has already given up
Stale(S, e) == \/ e.c \notin DOMAIN S.conns
               \/ S.conns[e.c].cl = <<>>
               \/ S.conns[e.c].eg # <<S.st, S.eg>>
               \/ S.conns[e.c].cl \notin DOMAIN S.cl
               \/ S.cl[S.conns[e.c].cl].conn # e.c

Resp(i, S, e) == IF Stale(S, e) THEN S ELSE
  LET c   == S.conns[e.c].cl
      r   == S.cl[c]
      f   == FlatOf(i, S, c)
      p   == r.pc
      ok  == e.code = 0 /\ ~e.drop
      done == LastVis(f, p)
      id  == LimId(f, p)
      unsup == e.drop \/ e.code \notin Special
      kill == f[p].ddl /\ unsup
      keep == ~e.drop /\ e.code \in KeepConn
      r1  == IF ok THEN [r EXCEPT !.pend = FALSE, !.pc = IF done THEN 0 ELSE p,
                              !.tc = IF done THEN @ + FirstsIn(f, p, Len(f)) ELSE @]  \* trailing trx of idles only
             ELSE IF kill THEN [r EXCEPT !.pend = FALSE, !.pc = 0, !.dead = TRUE, !.conn = 0]
             ELSE IF keep THEN [r EXCEPT !.pend = FALSE, !.pc = 0, !.cc = @ + 1, !.err = TRUE,
                                         !.rb = IF e.code \in NeedsRollback THEN "due" ELSE "no"]
             ELSE [r EXCEPT !.pend = FALSE, !.pc = 0, !.cc = @ + 1, !.err = TRUE, !.conn = 0]
      cg  == CGOf(i, S, c)
      nst == cg.nostats
      tr  == f[p].trx
      ec  == IF e.drop THEN 0 ELSE e.code
  IN [S EXCEPT !.lr = S.now,
               !.cl[c] = [r1 EXCEPT !.lidx = S.idx, !.tr = e.t, !.sz = FALSE],
               !.conns[e.c].dead = @ \/ (~ok /\ ~keep),
               !.col = IF ~ok THEN @
                       ELSE LET a == IF e.nrows > 0 THEN SaveAll(i, S, c, f[p], p, e.row, 1, @) ELSE @
                            IN IF f[p].s.iid = "" THEN a
                               ELSE (SaveInst(i, S, c, f[p], f[p].s.iid, p) :> e.iid) @@ a,
               !.lim = IF ok /\ f[p].s.rows.on
                       THEN (id :> [LimOf(S, id) EXCEPT !.tot = @ + e.aff,
                                      !.ents = Append(@, [c |-> c, aff |-> e.aff, sure |-> 0])]) @@ @
                       ELSE @,
               !.er = IF ok \/ nst THEN @
                      ELSE (ec :> ((IF ec \in DOMAIN @ THEN @[ec] ELSE 0) + 1)) @@ @,
               !.dlo = IF nst THEN @ ELSE Append(@, e.us - e.qus),
               !.dhi = IF nst THEN @ ELSE Append(@, e.nus - e.pus)]

RespOk(i, S, e) == TRUE

\* ---- rollback after an error ---------------------------------------------

RollbackOk(i, S, e) ==
  /\ G("err", e.c \in DOMAIN S.conns /\ S.conns[e.c].cl # <<>>)
  /\ LET c == S.conns[e.c].cl
     IN /\ G("err", c \in DOMAIN S.cl /\ S.conns[e.c].eg = <<S.st, S.eg>>)
        /\ G("err", S.cl[c].conn = e.c /\ ~S.cl[c].pend /\ S.cl[c].rb = "due")
Rollback(i, S, e) == [S EXCEPT !.cl[S.conns[e.c].cl].rb = "sent"]
RollbackRespOk(i, S, e) == TRUE
RollbackResp(i, S, e) == IF Stale(S, e) THEN S ELSE
  LET c == S.conns[e.c].cl
  IN IF e.code = 0 /\ ~e.drop
     THEN [S EXCEPT !.cl[c].rb = "no", !.cl[c].lidx = S.idx, !.cl[c].tr = e.t]
     ELSE [S EXCEPT !.cl[c].rb = "no", !.cl[c].dead = TRUE, !.conns[e.c].dead = TRUE]

\* ---- connection events -----------------------------------------------------

Open(i, S, e) == [S EXCEPT !.conns = (e.c :> Conn0(e.db)) @@ @]

\* USE and PREPARE happen on a connection before its first statement
SetupOk(i, S, e, label) ==
  /\ G(label, e.c \in DOMAIN S.conns)
  /\ G(label, S.conns[e.c].cl = <<>> \/ Reusable(i, S, e.c, e.t)
              \/ (S.conns[e.c].eg # <<S.st, S.eg>>))
Setup(i, S, e) == IF S.conns[e.c].cl = <<>> THEN S
                  ELSE [S EXCEPT !.conns[e.c].cl = <<>>, !.conns[e.c].preps = <<>>]
UseDb(i, S, e) == Setup(i, S, e)
UseDbResp(i, S, e) == IF e.c \notin DOMAIN S.conns THEN S ELSE IF e.code = 0 /\ ~e.drop THEN S
                      ELSE [S EXCEPT !.pfail = @ + 1, !.pnew = @ + 1, !.conns[e.c].dead = TRUE]
Prep(i, S, e) ==
  LET S1 == Setup(i, S, e)
  IN IF e.code = 0 /\ ~e.drop
     THEN [S1 EXCEPT !.conns[e.c].preps = Append(@, <<e.trx, e.sid>>)]
     ELSE [S1 EXCEPT !.pfail = @ + 1, !.pnew = @ + 1, !.conns[e.c].dead = TRUE]

Without(q, x) == LET k == CHOOSE k \in DOMAIN q : q[k] = x
                 IN IF Count(q, x) = 0 THEN q ELSE SubSeq(q, 1, k-1) \o SubSeq(q, k+1, Len(q))
Unprep(i, S, e) == IF e.c \notin DOMAIN S.conns THEN S
                   ELSE [S EXCEPT !.conns[e.c].preps = Without(@, <<e.trx, e.sid>>)]

\* ---- size limits -----------------------------------------------------------
(* Statements about table sizes are sent by the client whose next statement  *)
(* has a size limit.  e.tots: sequence of [db, t, bytes] (last ANALYZE).     *)

SizeTotal(z, tots) == SumSeq([k \in DOMAIN tots |->
    IF tots[k].db = z.db /\ (z.tbl = "" \/ tots[k].t = z.tbl) THEN tots[k].bytes ELSE 0])

MetaOk(i, S, e) ==
  /\ G("meta", e.c \in DOMAIN S.conns /\ S.conns[e.c].cl # <<>> /\ S.conns[e.c].cl \in DOMAIN S.cl)
  /\ LET c == S.conns[e.c].cl
         f == FlatOf(i, S, c)
         p == NextPos(f, S.cl[c].pc)
     IN G("meta", p # 0 /\ ~S.cl[c].pend /\ f[p].s.size.on)
MetaResp(i, S, e) ==
  LET c == S.conns[e.c].cl
      f == FlatOf(i, S, c)
      p == NextPos(f, S.cl[c].pc)
      id == LimId(f, p)
  IN IF ~e.szq THEN S
     ELSE [S EXCEPT !.cl[c].sz = SizeTotal(f[p].s.size, e.tots) >= f[p].s.size.max,
                    !.lim = (id :> [LimOf(S, id) EXCEPT !.since = 0]) @@ @]

\* ---- statistics ------------------------------------------------------------
(* e.from: sequence of [host, clients, interval, n (total), trx: seq of       *)
(* [name, n], errs: seq of <<code, count>>, min, max, bsum]                   *)

AddN(a, b) == [read |-> a.read + b.read, write |-> a.write + b.write,
               commit |-> a.commit + b.commit, other |-> a.other + b.other]
SumN(q) == [read |-> SumSeq([k \in DOMAIN q |-> q[k].n.read]),
            write |-> SumSeq([k \in DOMAIN q |-> q[k].n.write]),
            commit |-> SumSeq([k \in DOMAIN q |-> q[k].n.commit]),
            other |-> SumSeq([k \in DOMAIN q |-> q[k].n.other])]

NStats(i, s) == SumSeq([e \in DOMAIN GroupsOf(i, s) |->
                  SumSeq([g \in DOMAIN GroupsOf(i, s)[e] |->
                     IF GroupsOf(i, s)[e][g].cg.nostats THEN 0 ELSE GroupsOf(i, s)[e][g].cg.clients])])

Le(a, b) == a.read <= b.read /\ a.write <= b.write /\ a.commit <= b.commit /\ a.other <= b.other

\* in these stages a statement may have been cut off between the client and the server
StageCut(i, S) ==
  \/ S.intr >= 0 \/ S.lossy \/ Stg(i, S.st).lossy \/ Stg(i, S.st).rt > 0
  \/ \E e \in DOMAIN GroupsOf(i, S.st) : \E g \in DOMAIN GroupsOf(i, S.st)[e] :
        GroupsOf(i, S.st)[e][g].cg.rt > 0

TotN(f) == SumF([x \in DOMAIN f |-> f[x].read + f[x].write + f[x].commit + f[x].other], DOMAIN f)

ReportOk(i, S, e) ==
  /\ G("stats", S.st \in DOMAIN Cfgs[i].stages /\ Stg(i, S.st).stats /\ Len(e.from) = 1)
  /\ LET in == e.from[1]
     IN /\ G("stats", in.clients = NStats(i, S.st))
        /\ G("stats", in.interval = S.rp.last + 1)
        /\ G("stats", in.bsumOk)
        /\ G("stats", in.n = SumN(in.trx))
        /\ G("stats", LET m == in.n.read + in.n.write + in.n.commit + in.n.other
                      IN m + TotN(S.rp.n) <= TotN(S.ex) + (IF StageCut(i, S) THEN NClients(i, S.st) ELSE 0))
        /\ G("stats", StageCut(i, S) \/
              \A k \in DOMAIN in.trx :
                LET nm == in.trx[k].name
                    was == IF nm \in DOMAIN S.rp.n THEN S.rp.n[nm] ELSE ZeroN
                    ex  == IF nm \in DOMAIN S.ex THEN S.ex[nm] ELSE ZeroN
                IN Le(AddN(was, in.trx[k].n), ex))

Report(i, S, e) ==
  LET in == e.from[1]
      D  == {in.trx[k].name : k \in DOMAIN in.trx}
      nOf(nm) == in.trx[CHOOSE k \in DOMAIN in.trx : in.trx[k].name = nm].n
      was(nm) == IF nm \in DOMAIN S.rp.n THEN S.rp.n[nm] ELSE ZeroN
      C  == {in.errs[k][1] : k \in DOMAIN in.errs}
      eOf(c) == in.errs[CHOOSE k \in DOMAIN in.errs : in.errs[k][1] = c][2]
      wasE(c) == IF c \in DOMAIN S.rp.er THEN S.rp.er[c] ELSE 0
      tot == in.n.read + in.n.write + in.n.commit + in.n.other
  IN [S EXCEPT !.rp = [n    |-> [nm \in D |-> AddN(was(nm), nOf(nm))] @@ S.rp.n,
                       er   |-> [c \in C |-> wasE(c) + eOf(c)] @@ S.rp.er,
                       cnt  |-> S.rp.cnt + 1, last |-> in.interval,
                       min  |-> IF tot = 0 THEN S.rp.min
                                ELSE IF S.rp.min < 0 \/ in.min < S.rp.min THEN in.min ELSE S.rp.min,
                       max  |-> IF tot = 0 THEN S.rp.max
                                ELSE IF in.max > S.rp.max THEN in.max ELSE S.rp.max]]

MinSeq(q) == LET D == {q[k] : k \in DOMAIN q} IN CHOOSE x \in D : \A y \in D : x <= y
MaxSeq(q) == LET D == {q[k] : k \in DOMAIN q} IN CHOOSE x \in D : \A y \in D : y <= x

\* the reporters are stopped: everything executed has been reported

NotZero(f) == [x \in {y \in DOMAIN f : f[y] # ZeroN} |-> f[x]]

\* latest time at which the last group of the stage must have stopped (-1: none)
StopBy(i, S) ==
  LET gs == GroupsOf(i, S.st)
      g  == gs[Len(gs)]
      a  == IF Stg(i, S.st).rt > 0 /\ S.shi >= 0 THEN S.shi + Stg(i, S.st).rt ELSE -1
      b  == IF Len(gs) > 0 /\ S.eg = Len(gs) /\ S.ghi >= 0 /\ \A k \in DOMAIN g : g[k].cg.rt > 0
            THEN S.ghi + MaxSeq([k \in DOMAIN g |-> g[k].cg.rt]) ELSE -1
  IN IF a < 0 THEN b ELSE IF b < 0 \/ a < b THEN a ELSE b

StopRepOk(i, S, e) ==
  /\ G("stats", S.rp.cnt > 0)
  /\ G("time", StopBy(i, S) < 0 \/ e.t <= StopBy(i, S) + Tol)
  /\ IF StageCut(i, S)
     THEN \* a statement that was cut off may be counted or not
          LET n == NClients(i, S.st)
          IN /\ G("stats", TotN(S.rp.n) <= TotN(S.ex) + n)
             /\ G("stats", TotN(S.rp.n) >= TotN(S.ex) - n)
             \* the stop itself is not an error
             /\ G("stats", \A x \in DOMAIN S.rp.er : S.rp.er[x] <= (IF x \in DOMAIN S.er THEN S.er[x] ELSE 0))
             /\ G("stats", \A x \in DOMAIN S.er : (IF x \in DOMAIN S.rp.er THEN S.rp.er[x] ELSE 0) >= S.er[x] - n)
     ELSE /\ G("stats", NotZero(S.rp.n) = NotZero(S.ex))
          /\ G("stats", S.rp.er = S.er)
          /\ G("rtime", S.dlo = <<>> \/
               (/\ S.rp.min >= MinSeq(S.dlo) - 1 /\ S.rp.min <= MinSeq(S.dhi) + 1
                /\ S.rp.max >= MaxSeq(S.dlo) - 1 /\ S.rp.max <= MaxSeq(S.dhi) + 1))

StopRep(i, S, e) == [S EXCEPT !.rs = TRUE]

\* ---- CTRL-C and the end ----------------------------------------------------

Sigint(i, S, e) == [S EXCEPT !.intr = IF @ < 0 THEN e.t ELSE @]

ExitOk(i, S, e) ==
  /\ G(IF e.panic THEN "panic" ELSE "exit", e.code = 0)
  /\ G("time", S.intr < 0 \/ e.t <= S.intr + StopTol)
  /\ G("cerr", ~e.cerr)

\* ---- an observed event: the new state, st < 0 if it is not allowed ---------

NSt(i) == Len(Cfgs[i].stages)

\* S is the state with the event's time filled in; result: new state, or st < 0
Bad(X) == [X EXCEPT !.st = -2]

Step(i, X, e) ==
  CASE e.e = "open" -> Open(i, X, e)
    [] e.e = "q" /\ e.kind = "stmt" ->
         IF ~G("ident", e.st \in 1..NSt(i) /\ e.sno = Stg(i, e.st).no
                          /\ e.eg \in DOMAIN GroupsOf(i, e.st)) THEN Bad(X)
         ELSE IF ~G("seq", Runs(i, e.st)) THEN Bad(X)
         ELSE LET Y == Reach(i, X, e.st, e.eg, e.t)
              IN IF ~G("seq", Y.st # -1) \/ Y.st < 0 THEN Bad(X)
                 ELSE IF StartOk(i, Y, e) THEN Start(i, Y, e) ELSE Bad(X)
    [] e.e = "q" /\ e.kind = "rollback" -> IF RollbackOk(i, X, e) THEN Rollback(i, X, e) ELSE Bad(X)
    [] e.e = "q" /\ e.kind = "use" -> IF SetupOk(i, X, e, "conn") THEN UseDb(i, X, e) ELSE Bad(X)
    [] e.e = "q" /\ e.kind = "meta" -> IF MetaOk(i, X, e) THEN X ELSE Bad(X)
    [] e.e = "q" -> IF G("extra", FALSE) THEN X ELSE Bad(X)
    [] e.e = "r" /\ e.kind = "stmt" -> Resp(i, X, e)
    [] e.e = "r" /\ e.kind = "rollback" -> RollbackResp(i, X, e)
    [] e.e = "r" /\ e.kind = "use" -> UseDbResp(i, X, e)
    [] e.e = "r" /\ e.kind = "meta" -> MetaResp(i, X, e)
    [] e.e = "prep" -> IF SetupOk(i, X, e, "prep") THEN Prep(i, X, e) ELSE Bad(X)
    [] e.e = "unprep" -> Unprep(i, X, e)
    [] e.e = "held" -> IF G("conc", e.ok) THEN X ELSE Bad(X)
    [] e.e = "mkrep" ->
         IF ~G("time", X.intr < 0 \/ e.t <= X.intr + Tol) THEN Bad(X)
         ELSE IF e.st = 0 \/ ~Runs(i, e.st) THEN X
         ELSE LET Y == Reach(i, X, e.st, 0, e.t)
              IN IF ~G("seq", Y.st # -1) \/ Y.st < 0 THEN Bad(X) ELSE Y
    [] e.e = "report" -> IF ReportOk(i, X, e) THEN Report(i, X, e) ELSE Bad(X)
    [] e.e = "repstop" ->
         IF ~G("stats", X.st \in 1..NSt(i)) THEN Bad(X)
         ELSE LET Y == Reach(i, X, X.st, Len(GroupsOf(i, X.st)), e.t)
              IN IF Y.st < 0 \/ ~GroupDone(i, Y, e.t) THEN Bad(X)
                 ELSE IF StopRepOk(i, Y, e) THEN StopRep(i, Y, e) ELSE Bad(X)
    [] e.e = "sigint" -> Sigint(i, X, e)
    [] e.e = "timeout" -> IF G("hang", FALSE) THEN X ELSE Bad(X)
    [] e.e = "exit" ->
         IF ~ExitOk(i, X, e) THEN Bad(X)
         ELSE LET Y == Reach(i, X, NSt(i) + 1, 0, e.t)
              IN IF ~G("seq", Y.st # -1) \/ Y.st < 0 THEN Bad(X) ELSE Y
    [] OTHER -> X

=============================================================================
