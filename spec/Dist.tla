------------------------------- MODULE Dist -------------------------------
(***************************************************************************)
(* A whole distributed run: a server ("local", which executes the workload *)
(* too unless it's disabled) and remote instances.  What each instance does*)
(* within a stage is Run.tla, the requests between them are Compute.tla    *)
(* and Remote.tla; this module states what the user of all of them relies  *)
(* on: stages are the same for all instances, run one after another on all *)
(* instances, start on all of them only when all have booted, and what     *)
(* every instance executed is reported by the server, once.                *)
(*                                                                         *)
(* Run d: <<[hosts: instances (names) of the stage,                        *)
(*           remote: other instances take part,                            *)
(*           clients: clients of every instance,                           *)
(*           exact: one interval, which ends with the stage], ...>>        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Zero == [read |-> 0, write |-> 0, commit |-> 0, other |-> 0]
Add(a, b) == [read |-> a.read + b.read, write |-> a.write + b.write,
              commit |-> a.commit + b.commit, other |-> a.other + b.other]
Leq(a, b, c) == a.read <= b.read + c /\ a.write <= b.write + c /\ a.commit <= b.commit + c /\ a.other <= b.other + c
At(f, x, z) == IF x \in DOMAIN f THEN f[x] ELSE z
Kind(w) == CASE w = "SELECT" -> "read"
             [] w \in {"INSERT", "UPDATE", "DELETE", "REPLACE"} -> "write"
             [] w = "COMMIT" -> "commit"
             [] OTHER -> "other"
One(w) == [Zero EXCEPT ![Kind(w)] = 1]

Start0 == [st   |-> 0,        \* stage that the server is executing
           over |-> TRUE,     \* and it has been reported completely
           up   |-> {},       \* <<host, n>>: process n of a host has been started
           gone |-> {},       \* <<host, n>>: ... has ended
           ex   |-> <<>>,     \* <<host, trx>> -> executed statements by kind, this stage
           er   |-> <<>>,     \* <<host, code>> -> errors, this stage
           rx   |-> <<>>,     \* the same as reported
           re   |-> <<>>,
           last |-> 0,        \* last reported interval
           sig  |-> -1,       \* time of CTRL-C at the server
           out  |-> {},       \* hosts that were interrupted by CTRL-C
           lt   |-> <<>>]     \* host -> time of its last statement

ToldIn == 1500                \* ms after CTRL-C in which a client that hears of it in time has stopped
StopIn == 6500                \* ms in which an instance has stopped after CTRL-C (of the server)

\* process of host h that executes stage k: the server executes all stages, a client one
Nth(d, k) == Cardinality({j \in 1..k : d[j].remote})
Proc(d, h, k) == IF h = "local" THEN <<h, 1>> ELSE <<h, Nth(d, k)>>

\* the server begins stage k
BeginOk(d, S, k) == k = S.st + 1 /\ k <= Len(d) /\ S.over /\ S.sig < 0
Begin(d, S, k) == [S EXCEPT !.st = k, !.over = FALSE, !.ex = <<>>, !.er = <<>>, !.rx = <<>>, !.re = <<>>, !.last = 0, !.lt = <<>>]

\* instance h (process n) executes a statement of stage k, trx x
StmtOk(d, S, h, n, k, t) ==
  /\ k = S.st /\ ~S.over /\ h \in d[k].hosts
  /\ <<h, n>> = Proc(d, h, k)
  /\ \A g \in d[k].hosts : Proc(d, g, k) \in S.up                 \* all instances have (been started and) booted
  /\ S.sig < 0 \/ t <= S.sig + StopIn
Stmt(d, S, h, x, w, t) == [S EXCEPT !.ex = (<<h, x>> :> Add(At(@, <<h, x>>, Zero), One(w))) @@ @, !.lt = (h :> t) @@ @]
Err(d, S, h, c) == [S EXCEPT !.er = (<<h, c>> :> At(@, <<h, c>>, 0) + 1) @@ @]

\* a client that is interrupted may count the statement that it didn't send any more
Extra(d, S, h) == IF S.sig >= 0 \/ h \in S.out THEN d[S.st].clients ELSE 0

\* a report: in = <<[host, interval, clients, trx: <<[name, n]>>, errs: <<<<code, n>>>>], ...>>
ReportOk(d, S, in) ==
  LET rx(k, j) == At(S.rx, <<in[k].host, in[k].trx[j].name>>, Zero)
  IN
  /\ ~S.over /\ Len(in) > 0
  /\ \A k, j \in DOMAIN in : k # j => in[k].host # in[j].host
  /\ \A k \in DOMAIN in : /\ in[k].host \in d[S.st].hosts
                          /\ in[k].interval = in[1].interval
                          /\ in[k].clients = d[S.st].clients
                          /\ \A j \in DOMAIN in[k].trx :
                               Leq(Add(rx(k, j), in[k].trx[j].n), At(S.ex, <<in[k].host, in[k].trx[j].name>>, Zero), Extra(d, S, in[k].host))
  /\ in[1].interval > S.last

RECURSIVE AddAll(_, _, _)
AddAll(f, q, k) == IF k > Len(q) THEN f
                   ELSE AddAll((q[k][1] :> Add(At(f, q[k][1], Zero), q[k][2])) @@ f, q, k + 1)
RECURSIVE AddErr(_, _, _)
AddErr(f, q, k) == IF k > Len(q) THEN f
                   ELSE AddErr((q[k][1] :> At(f, q[k][1], 0) + q[k][2]) @@ f, q, k + 1)
RECURSIVE Flat(_, _)
Flat(q, k) == IF k > Len(q) THEN <<>> ELSE q[k] \o Flat(q, k + 1)

Report(d, S, in) ==
  [S EXCEPT !.last = in[1].interval,
            !.rx = AddAll(@, Flat([k \in DOMAIN in |-> [j \in DOMAIN in[k].trx |-> <<<<in[k].host, in[k].trx[j].name>>, in[k].trx[j].n>>]], 1), 1),
            !.re = AddErr(@, Flat([k \in DOMAIN in |-> [j \in DOMAIN in[k].errs |-> <<<<in[k].host, in[k].errs[j][1]>>, in[k].errs[j][2]>>]], 1), 1)]

\* the stage is over: everything that every instance executed has been reported
Some(f, z) == [x \in {y \in DOMAIN f : f[y] # z} |-> f[x]]
Not(f, out) == [x \in {y \in DOMAIN f : y[1] \notin out} |-> f[x]]
OverOk(d, S) ==
  /\ S.st > 0 /\ ~S.over
  /\ S.sig >= 0 \/ ~d[S.st].exact
               \/ (/\ Some(Not(S.rx, S.out), Zero) = Some(Not(S.ex, S.out), Zero)
                   /\ Some(Not(S.re, S.out), 0) = Some(Not(S.er, S.out), 0))

\* CTRL-C: the server waits for the clients, which stop when they check in (every second),
\* so what they executed is reported, too
OverSigOk(d, S) ==
  S.sig >= 0 /\ d[S.st].exact =>
    \A x \in DOMAIN S.ex : S.lt[x[1]] <= S.sig + ToldIn => Leq(S.ex[x], At(S.rx, x, Zero), Extra(d, S, x[1]))

Over(d, S) == [S EXCEPT !.over = TRUE]

\* process n of host h ends
ExitOk(d, S, h, n, code, t) ==
  IF h = "local" THEN /\ code = 0
                      /\ IF S.sig < 0 THEN S.over /\ S.st = Len(d) ELSE t <= S.sig + StopIn
  ELSE \/ S.sig >= 0 /\ t <= S.sig + StopIn
       \/ h \in S.out
       \/ code = 0 /\ S.st > 0 /\ Nth(d, S.st) >= n         \* each process of a client executes one stage
Exit(d, S, h, n) == [S EXCEPT !.gone = @ \cup {<<h, n>>}]

-----------------------------------------------------------------------------
(* Guarantees, checked on the state machine in DistMC                        *)
Conserved(d, S) == S.st > 0 /\ d[S.st].exact /\ S.over /\ S.sig < 0 /\ S.out = {} => Some(S.rx, Zero) = Some(S.ex, Zero)
NotMore(d, S) == \A x \in DOMAIN S.rx : Leq(S.rx[x], At(S.ex, x, Zero), Extra(d, S, x[1]))
=============================================================================
