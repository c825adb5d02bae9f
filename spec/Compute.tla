------------------------------- MODULE Compute -------------------------------
(***************************************************************************)
(* The server side of finch's client/server mode: the boot and run         *)
(* barriers, membership of remote instances, and the requests they send.   *)
(*                                                                         *)
(* Requests are handled atomically at some moment between being sent and   *)
(* being answered; a handled request carries its verdict in st:            *)
(*   "ok" (200), "reset" (205) or "rej" (any 4xx/5xx).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES Stages,    \* sequence of [n |-> instances, local |-> BOOLEAN, files |-> Nat]
          Test       \* --test: boot only                 (both never change)
CONSTANTS Slack,     \* how long (ms) an abandoned request may still be acted on
          StopWait   \* how long (ms) remotes are waited for after CTRL-C

VARIABLES srv,    \* stage the server is working on (0 before the first)
          ph,     \* "idle", "prep", "boot", "run", "stopping", "gone"
          api,    \* stage the API serves, 0 none
          done,   \* that stage is over (remotes are told on their next check-in)
          open,   \* run signal given
          cl,     \* name -> "booting" | "runnable" | "running", admitted remotes
          acks,   \* instances booted, local included
          fin,    \* instances that finished running
          lrun,   \* local instance: "no", "wait", "run", "end"
          req,    \* request id -> request being handled
          inbox,  \* remote statistics received and not yet reported
          lastrep,\* last interval reported
          sig,    \* time of CTRL-C, -1 none
          tstop   \* time the stage was told to stop

cvars == <<srv, ph, api, done, open, cl, acks, fin, lrun, req, inbox, lastrep, sig, tstop>>

NS == Len(Stages)
NRem(k) == IF Stages[k].local THEN Stages[k].n - 1 ELSE Stages[k].n
Drop1(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == (x :> v) @@ f

CInit == /\ srv = 0 /\ ph = "idle" /\ api = 0 /\ done = FALSE /\ open = FALSE
         /\ cl = <<>> /\ acks = 0 /\ fin = 0 /\ lrun = "no" /\ req = <<>>
         /\ inbox = {} /\ lastrep = 0 /\ sig = -1 /\ tstop = -1

(* ---- the server's own steps ------------------------------------------- *)

BeginStage ==
  /\ ph = "idle" /\ srv < NS /\ (sig < 0)
  /\ srv' = srv + 1 /\ ph' = "prep" /\ lrun' = "no" /\ inbox' = {} /\ lastrep' = 0
  /\ UNCHANGED <<api, done, open, cl, acks, fin, req, sig, tstop>>

\* the stage before this one is marked over before it is replaced
RetireOld ==
  /\ ph = "prep" /\ api # 0 /\ ~done /\ NRem(srv) > 0 /\ done' = TRUE
  /\ UNCHANGED <<srv, ph, api, open, cl, acks, fin, lrun, req, inbox, lastrep, sig, tstop>>

SetStage ==
  /\ ph = "prep"
  /\ IF NRem(srv) > 0
     THEN /\ (api # 0 => done) /\ api' = srv /\ done' = FALSE /\ open' = FALSE /\ cl' = <<>>
     ELSE UNCHANGED <<api, done, open, cl>>
  /\ acks' = (IF Stages[srv].local THEN 1 ELSE 0)
  /\ lrun' = (IF Stages[srv].local THEN "wait" ELSE "no")
  /\ fin' = 0 /\ ph' = "boot"
  /\ UNCHANGED <<srv, req, inbox, lastrep, sig, tstop>>

\* all instances booted: the run signal (or, with --test, the end)
Barrier ==
  /\ ph = "boot" /\ acks = Stages[srv].n
  /\ IF Test
     THEN /\ IF NRem(srv) > 0 THEN ph' = "stopping" /\ open' = TRUE /\ done' = TRUE
                              ELSE ph' = "idle" /\ UNCHANGED <<open, done>>
          /\ tstop' = 0 /\ UNCHANGED lrun
     ELSE /\ ph' = "run" /\ lrun' = (IF Stages[srv].local THEN "run" ELSE "no")
          /\ open' = (IF NRem(srv) > 0 THEN TRUE ELSE open) /\ UNCHANGED <<done, tstop>>
  /\ UNCHANGED <<srv, api, cl, acks, fin, req, inbox, lastrep, sig>>

LocalEnd ==
  /\ lrun = "run" /\ lrun' = "end" /\ fin' = fin + 1
  /\ UNCHANGED <<srv, ph, api, done, open, cl, acks, req, inbox, lastrep, sig, tstop>>

\* every instance reported that it is done
StageEnd ==
  /\ ph = "run" /\ fin = Stages[srv].n /\ ph' = "idle"
  /\ UNCHANGED <<srv, api, done, open, cl, acks, fin, lrun, req, inbox, lastrep, sig, tstop>>

\* after CTRL-C: while booting the server just ends; while running remotes are told
Interrupt(t) ==
  /\ sig >= 0 /\ ph \in {"prep", "boot", "run", "idle"}
  /\ IF ph = "run" THEN ph' = "stopping" /\ tstop' = t /\ done' = (IF api # 0 THEN TRUE ELSE done)
     ELSE ph' = "gone" /\ UNCHANGED <<tstop, done>>
  /\ UNCHANGED <<srv, api, open, cl, acks, fin, lrun, req, inbox, lastrep, sig>>

\* the stopped stage is taken down when its remotes are gone, or after a bounded wait
TakeDown(t) ==
  /\ ph = "stopping" /\ (cl = <<>> \/ t >= tstop + StopWait)
  /\ api' = 0
  /\ ph' = (IF Test THEN "idle" ELSE "gone")
  /\ UNCHANGED <<srv, done, open, cl, acks, fin, lrun, req, inbox, lastrep, sig, tstop>>

(* ---- requests ---------------------------------------------------------- *)
\* r: [op, name, sid (stage the client believes in, -1 wrong), arg, interval, tag, ab]

Known(r) == api # 0 /\ r.name \in DOMAIN cl
SidOk(r) == r.sid = api
St(r) == cl[r.name]

\* GET /boot: is there a place for this remote in the stage being booted?
Assignable(r) ==
  /\ api # 0 /\ ~done /\ ph = "boot" /\ srv = api
  /\ IF r.name \in DOMAIN cl THEN cl[r.name] = "booting" ELSE Cardinality(DOMAIN cl) < NRem(api)

\* what may happen to request r: set of [v |-> verdict, st |-> stage, cl, acks, fin, inbox]
\* (empty: it has to wait)
Same(v) == [v |-> v, k |-> api, cl |-> cl, acks |-> acks, fin |-> fin, inbox |-> inbox]
Rej == {Same("rej")}
\* when the stage is over, the identity a remote sends may or may not be checked any more
IfMember(r, ok) == IF ~Known(r) THEN Rej
                   ELSE IF SidOk(r) THEN ok
                   ELSE IF done THEN ok \cup Rej ELSE Rej

Outcomes(r) ==
  CASE r.op = "getboot" ->
         IF Assignable(r) THEN {[Same("ok") EXCEPT !.cl = Put(cl, r.name, "booting")]}
         ELSE IF api = 0 \/ Known(r) THEN Rej ELSE {}
    [] r.op = "postboot" -> IfMember(r,
         CASE St(r) = "booting" /\ r.arg = "err" -> {[Same("ok") EXCEPT !.cl = Drop1(cl, r.name)]}
           [] St(r) = "booting" -> {[Same("ok") EXCEPT !.cl = Put(cl, r.name, "runnable"), !.acks = acks + 1]}
           [] St(r) = "runnable" -> {Same("ok"), Same("rej")}     \* repeated acknowledgement
           [] OTHER -> Rej)
    [] r.op = "file" -> IfMember(r, IF St(r) = "booting" /\ r.i \in 0..(Stages[api].files - 1) THEN {Same("ok")} ELSE Rej)
    [] r.op = "getrun" -> IfMember(r,
         IF St(r) \notin {"runnable", "running"} THEN Rej
         ELSE IF ~open THEN (IF done THEN Rej ELSE {})
         ELSE IF done THEN {[Same("reset") EXCEPT !.cl = Drop1(cl, r.name)]}
         ELSE IF St(r) = "runnable" THEN {[Same("ok") EXCEPT !.cl = Put(cl, r.name, "running")]}
         ELSE {Same("ok"), Same("rej")})
    [] r.op = "postrun" -> IfMember(r,
         IF St(r) = "running" THEN {[Same("ok") EXCEPT !.cl = Drop1(cl, r.name), !.fin = fin + 1]} ELSE Rej)
    [] r.op = "stats" -> IfMember(r,
         IF St(r) # "running" THEN Rej
         ELSE IF r.interval <= lastrep \/ (\E x \in inbox : x.host = r.name /\ x.interval = r.interval)
              THEN {Same("ok")}
              ELSE {[Same("ok") EXCEPT !.inbox = inbox \cup {[host |-> r.name, interval |-> r.interval, tag |-> r.tag]}]})
    [] r.op = "ping" -> IfMember(r, IF done THEN {Same("reset")} ELSE {Same("ok")})
    [] OTHER -> Rej

Handle(id, t) ==
  /\ id \in DOMAIN req /\ req[id].st = "new"
  /\ (req[id].ab < 0 \/ t <= req[id].ab + Slack)
  /\ \E o \in Outcomes(req[id]) :
       /\ req' = [req EXCEPT ![id].st = o.v, ![id].k = o.k]
       /\ cl' = o.cl /\ acks' = o.acks /\ fin' = o.fin /\ inbox' = o.inbox
  /\ UNCHANGED <<srv, ph, api, done, open, lrun, lastrep, sig, tstop>>

\* a report of one interval: every entry was received (once), all of one interval,
\* later than every interval reported before
ReportOk(from) ==
  /\ Len(from) > 0
  /\ \A a, b \in DOMAIN from : a # b => from[a].host # from[b].host
  /\ \A a \in DOMAIN from : from[a].interval = from[1].interval
  /\ from[1].interval > lastrep
  /\ \A a \in DOMAIN from : from[a].host # "local" =>
        [host |-> from[a].host, interval |-> from[a].interval, tag |-> from[a].tag] \in inbox
  \* everything received for that interval is in the report
  /\ \A x \in inbox : x.interval = from[1].interval => \E a \in DOMAIN from : from[a].host = x.host

Report(from) ==
  /\ ReportOk(from)
  /\ lastrep' = from[1].interval
  /\ inbox' = {x \in inbox : x.interval > from[1].interval}
  /\ UNCHANGED <<srv, ph, api, done, open, cl, acks, fin, lrun, req, sig, tstop>>

(* ---- properties -------------------------------------------------------- *)
Admitted == Cardinality(DOMAIN cl)
Prev(s) == {x \in DOMAIN cl : cl[x] = s}
\* no more remotes than places
AtMostN == api # 0 => Admitted <= NRem(api)
\* nothing runs before all instances have booted
AllBooted == (ph = "run" \/ lrun = "run" \/ Prev("running") # {}) => (srv > 0 /\ acks = Stages[srv].n)
\* a boot acknowledgement is counted once, and only for instances that booted
AckExact == (ph = "boot" /\ srv > 0 /\ NRem(srv) > 0) =>
              acks = Cardinality(Prev("runnable")) + (IF Stages[srv].local THEN 1 ELSE 0)
\* the server moves on only when everybody is done
MovesOn == (ph = "run" /\ sig < 0 /\ ~Test /\ NRem(srv) > 0) =>
             fin + Cardinality(Prev("running")) + Cardinality(Prev("runnable")) + (IF lrun = "run" THEN 1 ELSE 0) = Stages[srv].n
FinOk == ph \in {"boot", "run", "stopping"} => fin <= Stages[srv].n
=============================================================================
