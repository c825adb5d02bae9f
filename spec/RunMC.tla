------------------------------- MODULE RunMC --------------------------------
(***************************************************************************)
(* Model checking of Run.tla: small configurations, every event that the    *)
(* MySQL server or a reporter could observe next, in every order.  The      *)
(* specification allows or refuses each event; an observer H, which knows   *)
(* nothing of the specification's state, watches the allowed events and     *)
(* states the documented guarantees in its own terms:                       *)
(*   - one execution group at a time, in order                       (C01)  *)
(*   - statements of an iteration in order, none skipped or repeated (C03)  *)
(*   - iterations never exceed a limit, and reach it exactly         (C04)  *)
(*   - after an error: rollback if needed, new iteration             (C05)  *)
(*   - nothing executes after the deadline or CTRL-C                 (C06)  *)
(*   - a value belongs to one period of one scope, and is constant   (C07-10)*)
(*   - a rows limit is not exceeded by more than the clients         (C13)  *)
(*   - everything executed is reported once                          (C14)  *)
(* Deadlock freedom: the specification never refuses all continuations of a *)
(* behaviour it has allowed so far (a correct finch can always go on).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils, Alloc

In == JsonDeserialize(IOEnv.VERIF_IN)
MCCfgs == In.cfgs
Opt == In.opts       \* per configuration: conns, errs, codes, cps, ns, ticks, dt, stm, sig, reports, lazy
MCPlans == AllPlans(MCCfgs)

VARIABLES cid, S, H

R == INSTANCE Run WITH Cfgs <- MCCfgs, Plans <- MCPlans, Blame <- LAMBDA x : FALSE,
                       Later <- LAMBDA s, e, c : FALSE, Tol <- 5, StopTol <- 100

vars == <<cid, S, H>>

H0 == [pend |-> {}, last |-> <<0, 0>>, pos |-> <<>>, it |-> <<>>, sc |-> <<>>, tc |-> <<>>, cc |-> <<>>,
       conn |-> <<>>, due |-> {}, cells |-> <<>>, rows |-> <<>>, ex |-> 0, rep |-> 0, fin |-> FALSE, sig |-> -1,
       errs |-> 0, ticks |-> 0, dead |-> {}, t1 |-> <<>>, saved |-> <<>>, bad |-> {}]

Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == (x :> v) @@ f
Sum(f, D) == R!SumF([x \in D |-> Get(f, x, 0)], D)

\* ---- candidate events -----------------------------------------------------

NC == Opt[cid].conns
NSt == Len(MCCfgs[cid].stages)
At(r) == r @@ [t |-> S.now]

RECURSIVE ValSeqs(_, _)
ValSeqs(s, uses) ==
  IF uses = <<>> THEN {<<>>}
  ELSE LET k == Head(uses).k
           K == R!Stg(cid, s).keys[k]
           V == IF K.gen = "col"
                THEN {[k |-> k, k2 |-> "", cp |-> 0, n |-> 0, ix |-> 0, prm |-> "", raw |-> x] : x \in {"nil", "1", "2"}}
                ELSE {[k |-> k, k2 |-> k, cp |-> cp, n |-> n, ix |-> 0, prm |-> K.prm, raw |-> ""] :
                        cp \in 1..Opt[cid].cps, n \in 1..Opt[cid].ns}
       IN {<<v>> \o q : v \in V, q \in ValSeqs(s, Tail(uses))}

StmtEvents ==
  IF Sum(H.sc, DOMAIN H.sc) >= Opt[cid].stm THEN {} ELSE
  UNION { UNION { LET Y == R!Reach(cid, S, s, e, S.now)
                  IN IF Y.st # s THEN {}
                     ELSE UNION { LET r == R!StartR(cid, Y, [cl |-> cl, c |-> c, t |-> S.now])
                                      f == R!FlatOf(cid, Y, cl)
                                  IN UNION { { At([e |-> "q", kind |-> "stmt", c |-> c, st |-> s, sno |-> R!Stg(cid, s).no, eg |-> e,
                                                   cl |-> cl, trx |-> f[p].trx, sid |-> f[p].s.sid, ps |-> f[p].s.prep, db |-> "",
                                                   rs |-> r.sc, rt |-> r.tc, ri |-> r.it, rcn |-> r.cc, vals |-> v]) :
                                               v \in ValSeqs(s, f[p].s.uses) } : p \in DOMAIN f }
                                : cl \in DOMAIN Y.cl, c \in DOMAIN S.conns }
                : e \in DOMAIN R!GroupsOf(cid, s) } : s \in {x \in 1..NSt : R!Runs(cid, x)} }

Codes == IF H.errs < Opt[cid].errs THEN {Opt[cid].codes[k] : k \in DOMAIN Opt[cid].codes} \cup {0} ELSE {0}

RespEvents ==
  { At([e |-> "r", kind |-> "stmt", c |-> c, code |-> IF x = 1 THEN 0 ELSE x, drop |-> (x = 1), aff |-> IF x = 0 THEN 1 ELSE 0,
        iid |-> "0", nrows |-> 1, row |-> <<ToString((H.ex % 2) + 1)>>, us |-> 0, qus |-> 0, nus |-> 0, pus |-> 0,
        szq |-> FALSE, tots |-> <<>>]) :
    c \in {y \in DOMAIN S.conns : \E p \in H.pend : p[4] = y}, x \in Codes }

RbEvents == {At([e |-> "q", kind |-> "rollback", c |-> c]) : c \in DOMAIN S.conns}
RbResps == {At([e |-> "r", kind |-> "rollback", c |-> c, code |-> 0, drop |-> FALSE]) :
               c \in {S.cl[x].conn : x \in {y \in DOMAIN S.cl : S.cl[y].rb = "sent"}}}

OpenEvents == LET n == Cardinality(DOMAIN S.conns) + 1
              IN IF n > NC \/ (Opt[cid].lazy /\ \E c \in DOMAIN S.conns : S.conns[c].cl = <<>> /\ ~S.conns[c].dead) THEN {} ELSE {At([e |-> "open", c |-> n, db |-> ""])}

PrepEvents == {At([e |-> "prep", c |-> c, trx |-> x[1], sid |-> x[2], code |-> 0, drop |-> FALSE]) :
                 c \in {y \in DOMAIN S.conns : S.conns[y].cl = <<>> /\ S.conns[y].preps = <<>>},
                 x \in UNION {UNION {UNION {LET q == R!PrepList(R!GroupsOf(cid, s)[e][g].flat) IN {q[k] : k \in DOMAIN q}
                          : g \in DOMAIN R!GroupsOf(cid, s)[e]} : e \in DOMAIN R!GroupsOf(cid, s)} : s \in 1..NSt}}

\* what a reporter is told: everything new, or nothing
Names(X) == DOMAIN X.ex
Seq1(f) == LET RECURSIVE L(_)
               L(D) == IF D = {} THEN <<>> ELSE LET x == CHOOSE y \in D : TRUE IN <<x>> \o L(D \ {x})
           IN L(f)
Minus(a, b) == [read |-> a.read - b.read, write |-> a.write - b.write, commit |-> a.commit - b.commit, other |-> a.other - b.other]
RepEvents ==
  IF ~Opt[cid].reports \/ S.st \notin 1..NSt THEN {}
  ELSE LET q(all) == LET nm == Seq1(Names(S))
                     IN [k \in DOMAIN nm |-> [name |-> nm[k],
                          n |-> IF all THEN Minus(S.ex[nm[k]], Get(S.rp.n, nm[k], R!ZeroN)) ELSE R!ZeroN]]
           er(all) == LET cs == Seq1(DOMAIN S.er)
                      IN IF ~all THEN <<>> ELSE [k \in DOMAIN cs |-> <<cs[k], S.er[cs[k]] - Get(S.rp.er, cs[k], 0)>>]
       IN {At([e |-> "report", from |-> <<[host |-> "local", clients |-> R!NStats(cid, S.st), interval |-> S.rp.last + 1,
               n |-> R!SumN(q(all)), trx |-> q(all), errs |-> er(all), bsumOk |-> TRUE, min |-> 0, max |-> 0]>>]) :
              all \in {x \in BOOLEAN : IF x THEN S.rp.cnt = 0 \/ R!NotZero(S.rp.n) # R!NotZero(S.ex) \/ S.rp.er # S.er ELSE S.rp.cnt < 1}}

EndEvents == {At([e |-> "exit", code |-> 0, cerr |-> FALSE, panic |-> FALSE])}
             \cup (IF Opt[cid].reports /\ ~S.rs THEN {At([e |-> "repstop"])} ELSE {})
             \cup (IF Opt[cid].sig /\ S.intr < 0 THEN {At([e |-> "sigint"])} ELSE {})

Events == StmtEvents \cup RespEvents \cup RbEvents \cup RbResps \cup OpenEvents \cup PrepEvents \cup RepEvents \cup EndEvents

\* ---- the observer -----------------------------------------------------------

Bad(h, label, ok) == IF ok THEN h ELSE [h EXCEPT !.bad = @ \cup {label}]

CGs(s, e) == R!GroupsOf(cid, s)[e]
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])

\* the scope period of use u (value v) of client key k = <<st, eg, cl>>
Cell(h, k, pos, sc, u, j, tno) ==
  CASE sc = "statement"    -> <<"st", u.k, k, pos, h.sc[k]>>
    [] sc = "row"          -> <<"ro", u.k, k, pos, h.sc[k], u.row>>
    [] sc = "trx"          -> <<"tr", u.k, k, tno, h.tc[k]>>
    [] sc = "iter"         -> <<"it", u.k, k, h.it[k]>>
    [] sc = "client"       -> <<"cl", u.k, k, h.cc[k]>>
    [] sc \in {"client-group", "exec-group", "workload"} -> <<"sh", u.k, k, h.it[k]>>
    [] sc = "stage"        -> <<"sg", u.k, k[1]>>
    [] sc = "global"       -> <<"gl", u.k>>
    [] OTHER               -> <<"va", u.k, k, h.sc[k], j>>

RECURSIVE Watch(_, _, _, _, _, _)
Watch(h, k, pos, ent, vs, j) ==
  IF j > Len(vs) THEN h
  ELSE LET u == ent.s.uses[j]
           K == R!Stg(cid, k[1]).keys[u.k]
           v == <<vs[j].cp, vs[j].n>>
           c == Cell(h, k, pos, R!EffScope(K, u.row), u, j, ent.tno)
           g == IF K.gen = "col" \/ u.call THEN h     \* explicit calls: C10, not modelled by the observer
                ELSE LET h1 == Bad(h, "scope: value changed in a period", Get(h.cells, c, v) = v)
                         h2 == Bad(h1, "scope: value of another period", \A x \in DOMAIN h1.cells : x = c \/ h1.cells[x] # v)
                     IN [h2 EXCEPT !.cells = Put(@, c, v)]
       IN Watch(g, k, pos, ent, vs, j + 1)

OnStmt(h, e) ==
  LET k   == <<e.st, e.eg, e.cl>>
      f   == CGs(e.st, e.eg)[e.cl[1]].flat
      cg  == CGs(e.st, e.eg)[e.cl[1]].cg
      p   == Get(h.pos, k, 0)
      np  == IF p = Len(f) THEN 1 ELSE p + 1
      ni  == np = 1
      h1  == [h EXCEPT !.it = IF ni THEN Put(@, k, Get(@, k, 0) + 1) ELSE @,
                       !.sc = Put(@, k, Get(@, k, 0) + 1),
                       !.tc = IF f[np].first THEN Put(@, k, Get(@, k, 0) + 1) ELSE @,
                       !.cc = Put(@, k, Get(@, k, 1)),
                       !.pos = Put(@, k, np), !.ex = @ + (IF cg.nostats THEN 0 ELSE 1),
                       !.last = <<e.st, e.eg>>,
                       !.t1 = IF <<e.st>> \in DOMAIN @ THEN @ ELSE Put(@, <<e.st>>, S.now)]
      mine == {x \in DOMAIN h1.it : x[1] = e.st /\ x[2] = e.eg /\ x[3][1] = e.cl[1]}
      grp  == {x \in DOMAIN h1.it : x[1] = e.st /\ x[2] = e.eg}
      icg  == {x \in grp : CGs(e.st, e.eg)[x[3][1]].cg.ieg > 0}
      rt   == R!Stg(cid, e.st).rt
      h2 == Bad(h1, "C01 order", Before(h.last, <<e.st, e.eg>>))
      h3 == Bad(h2, "C01 groups overlap", S.intr >= 0 \/ \A x \in h.pend : (x[1] = e.st /\ x[2] = e.eg)
                                                                       \/ R!Stg(cid, x[1]).rt > 0)
      h4 == Bad(h3, "C03 order", f[np].trx = e.trx /\ f[np].s.sid = e.sid)
      h5 == Bad(h4, "C04 limit", /\ cg.iter = 0 \/ h1.it[k] <= cg.iter
                                 /\ cg.ic = 0 \/ Sum(h1.it, mine) <= cg.ic
                                 /\ cg.ieg = 0 \/ Sum(h1.it, icg) <= cg.ieg)
      h6 == Bad(h5, "C05", k \notin h.due /\ k \notin h.dead /\ (\A x \in h.pend : <<x[1], x[2], x[3]>> # k)
                           /\ (k \in DOMAIN h.conn => h.conn[k] = e.c))
      h7 == Bad(h6, "C06", /\ h.sig < 0 \/ S.now <= h.sig + 5
                           /\ rt = 0 \/ S.now <= h1.t1[<<e.st>>] + rt + 5)
      id == <<f[np].trx, f[np].sno>>
      h8 == Bad(h7, "C13", ~f[np].s.rows.on \/
                 Get(h.rows, id, 0) < f[np].s.rows.max + Cardinality(grp))
  IN Watch([h8 EXCEPT !.pend = @ \cup {<<e.st, e.eg, e.cl, e.c>>}, !.conn = Put(@, k, e.c)], k, np, f[np], e.vals, 1)

OnResp(h, e) ==
  LET x == CHOOSE y \in h.pend : y[4] = e.c
      k == <<x[1], x[2], x[3]>>
      f == CGs(x[1], x[2])[x[3][1]].flat
      p == h.pos[k]
      id == <<f[p].trx, f[p].sno>>
      h1 == [h EXCEPT !.pend = @ \ {x}]
  IN IF e.code = 0 /\ ~e.drop THEN [h1 EXCEPT !.rows = Put(@, id, Get(@, id, 0) + 1)]
     ELSE LET keep == ~e.drop /\ e.code \in R!KeepConn
          IN [h1 EXCEPT !.errs = @ + 1, !.pos = Put(@, k, 0), !.cc = Put(@, k, @[k] + 1),
                        !.due = IF keep /\ e.code \in R!NeedsRollback THEN @ \cup {k} ELSE @,
                        !.dead = IF f[p].ddl /\ (e.drop \/ e.code \notin R!Special) THEN @ \cup {k} ELSE @,
                        !.conn = IF keep THEN @ ELSE [y \in DOMAIN @ \ {k} |-> @[y]]]

\* at the end without errors, deadlines or CTRL-C: every limit reached exactly
OnExit(h) ==
  LET quiet == h.errs = 0 /\ h.sig < 0 /\ \A s \in 1..NSt : R!Stg(cid, s).rt = 0
      rowLim == \E s \in 1..NSt : \E t \in DOMAIN R!Stg(cid, s).trx : \E q \in DOMAIN R!Stg(cid, s).trx[t].stmts :
                    R!Stg(cid, s).trx[t].stmts[q].rows.on
      okCG(s, e, g) == LET cg == CGs(s, e)[g].cg
                           ks == {<<s, e, <<g, n>>>> : n \in 1..cg.clients}
                           ieg == {<<s, e, <<y, n>>>> : y \in {z \in DOMAIN CGs(s, e) : CGs(s, e)[z].cg.ieg > 0}, n \in 1..9}
                       IN /\ cg.iter > 0 /\ cg.ic = 0 /\ cg.ieg = 0 => \A x \in ks : Get(h.it, x, 0) = cg.iter
                          /\ cg.ic > 0 /\ cg.iter = 0 /\ cg.ieg = 0 => Sum(h.it, ks) = cg.ic
                          /\ cg.ieg > 0 /\ cg.iter = 0 /\ cg.ic = 0 => Sum(h.it, ieg) = cg.ieg
      h1 == Bad(h, "C04 exact", ~quiet \/ rowLim \/
                  \A s \in {x \in 1..NSt : R!Runs(cid, x)} : \A e \in DOMAIN R!GroupsOf(cid, s) :
                     \A g \in DOMAIN R!GroupsOf(cid, s)[e] : okCG(s, e, g))
      h2 == Bad(h1, "C04 mid-iteration", ~quiet \/ rowLim \/ \A k \in DOMAIN h.pos :
                       h.pos[k] = Len(CGs(k[1], k[2])[k[3][1]].flat))
      h3 == Bad(h2, "C14", ~quiet \/ ~Opt[cid].reports \/ h.rep = h.ex)
  IN [h3 EXCEPT !.fin = TRUE]

Observe(h, e) ==
  CASE e.e = "q" /\ e.kind = "stmt" -> OnStmt(h, e)
    [] e.e = "r" /\ e.kind = "stmt" -> OnResp(h, e)
    [] e.e = "q" /\ e.kind = "rollback" ->
         LET D == {k \in h.due : Get(h.conn, k, 0) = e.c}
         IN Bad([h EXCEPT !.due = @ \ D], "C05 rollback", D # {})
    [] e.e = "report" -> [h EXCEPT !.rep = @ + R!TotN([x \in {1} |-> e.from[1].n])]
    [] e.e = "sigint" -> [h EXCEPT !.sig = S.now]
    [] e.e = "exit" -> OnExit(h)
    [] OTHER -> h

\* ---- behaviours ----------------------------------------------------------------

Init == cid \in DOMAIN MCCfgs /\ S = R!InitS /\ H = H0

Do(e) == LET Y == R!Step(cid, [S EXCEPT !.idx = @ + 1], e)
         IN Y.st # -2 /\ S' = Y /\ H' = Observe(H, e) /\ UNCHANGED cid

Tick == /\ H.ticks < Opt[cid].ticks /\ H.ex > 0
        /\ S' = [S EXCEPT !.now = @ + Opt[cid].dt] /\ H' = [H EXCEPT !.ticks = @ + 1] /\ UNCHANGED cid

Next == \/ ~H.fin /\ \E e \in Events : Do(e)
        \/ ~H.fin /\ Tick
        \/ H.fin /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars

Guarantees == H.bad = {}
\* used by the coverage run: which configurations can end
Ends == ~H.fin
=============================================================================
