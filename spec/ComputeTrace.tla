---------------------------- MODULE ComputeTrace ----------------------------
(* Is a recorded execution of the real server (requests and responses of its   *)
(* remotes, statements of its local instance, reports, signals, exit) a        *)
(* behaviour of Compute.tla?  Server steps are not recorded: they are guessed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils
In == JsonDeserialize(IOEnv.VERIF_IN)
Trs == In.traces
VARIABLES tid, l, srv, ph, api, done, open, cl, acks, fin, lrun, req, inbox, lastrep, sig, tstop
cv == <<srv, ph, api, done, open, cl, acks, fin, lrun, req, inbox, lastrep, sig, tstop>>
C == INSTANCE Compute WITH Stages <- Trs[tid].stages, Test <- Trs[tid].test, Slack <- In.slack, StopWait <- In.stopwait
E == Trs[tid].ev
Now == IF l = 1 THEN 0 ELSE E[l-1].t

Init == tid \in DOMAIN Trs /\ l = 1 /\ C!CInit

Silent == /\ l <= Len(E) /\ UNCHANGED <<tid, l>>
          /\ \/ E[l].e = "mkrep" /\ C!BeginStage
             \/ C!RetireOld
             \/ srv > 0 /\ l > Trs[tid].mk[srv] /\ C!SetStage
             \/ C!Barrier
             \/ srv > 0 /\ l > Trs[tid].last[srv] /\ C!LocalEnd
             \/ C!StageEnd
             \/ C!Interrupt(Now) \/ C!TakeDown(E[l].t)
             \/ \E x \in DOMAIN req : C!Handle(x, Now) /\ (req[x].ab >= 0 => <<cl, acks, fin, inbox>>' # <<cl, acks, fin, inbox>>)

Consume(e) ==
  CASE e.e = "req" -> /\ req' = C!Put(req, e.id, [op |-> e.op, name |-> e.name, sid |-> e.sid, arg |-> e.arg, i |-> e.i,
                                                       interval |-> e.interval, tag |-> e.tag, ab |-> -1, st |-> "new", k |-> 0])
                      /\ UNCHANGED <<srv, ph, api, done, open, cl, acks, fin, lrun, inbox, lastrep, sig, tstop>>
    [] e.e = "resp" -> /\ req[e.id].st = e.v
                       /\ (e.v = "ok" /\ e.op \in {"getboot", "file"} => e.k = req[e.id].k)
                       /\ (e.v = "ok" /\ e.op = "file" => e.i = req[e.id].i)
                       /\ req' = C!Drop1(req, e.id)
                       /\ UNCHANGED <<srv, ph, api, done, open, cl, acks, fin, lrun, inbox, lastrep, sig, tstop>>
    [] e.e = "abort" ->
         \* it may still be acted on for a moment; of several like it the last one is enough
         /\ LET others == {x \in DOMAIN req : x # e.id /\ ~(req[x].ab >= 0 /\ (e.t > req[x].ab + In.slack \/ req[x].st # "new"
                                                  \/ (req[x].name = req[e.id].name /\ req[x].op = req[e.id].op)))}
            IN req' = IF req[e.id].st = "new"
                      THEN [x \in others \cup {e.id} |-> IF x = e.id THEN [req[x] EXCEPT !.ab = e.t] ELSE req[x]]
                      ELSE [x \in others |-> req[x]]
         /\ UNCHANGED <<srv, ph, api, done, open, cl, acks, fin, lrun, inbox, lastrep, sig, tstop>>
    [] e.e = "stmt" -> /\ ph \in {"run", "stopping"} /\ srv = e.st /\ lrun = "run" /\ UNCHANGED cv
    [] e.e = "rep" -> /\ srv = e.st /\ C!Report(e.from)
    [] e.e = "mkrep" -> /\ srv = e.st /\ ph = "prep" /\ UNCHANGED cv
    [] e.e = "repstop" -> /\ inbox = {} /\ UNCHANGED cv
    [] e.e = "sigint" -> /\ sig' = e.t
                         /\ UNCHANGED <<srv, ph, api, done, open, cl, acks, fin, lrun, req, inbox, lastrep, tstop>>
    [] e.e = "exit" -> /\ e.code = 0
                       /\ (ph = "idle" /\ srv = Trs[tid].ns) \/ ph = "gone"
                       /\ (sig >= 0 => e.t <= sig + In.exitwait)
                       \* a boot test releases the remotes that wait for the run signal
                       /\ (Trs[tid].test /\ sig < 0 =>
                             ~\E x \in DOMAIN req : /\ req[x].op = "getrun" /\ req[x].st = "new"
                                                   /\ (req[x].ab < 0 \/ req[x].ab >= e.t - 250)
                                                   /\ C!Known(req[x]) /\ cl[req[x].name] = "runnable")
                       /\ UNCHANGED cv
    [] e.e = "timeout" -> FALSE
    [] OTHER -> UNCHANGED cv

Step == /\ l <= Len(E) /\ UNCHANGED tid
        \* after CTRL-C the server reacts within Slack
        /\ (sig >= 0 /\ E[l].t > sig + In.slack => ph \in {"stopping", "gone"} \/ (ph = "idle" /\ srv = Trs[tid].ns))
        /\ Consume(E[l]) /\ l' = l + 1
        /\ PrintT(<<IF l = Len(E) THEN "ACCEPTED" ELSE "AT", tid, l>>)
View == <<tid, l, srv, ph, api, done, open, cl, acks, fin, lrun, req, inbox, lastrep, sig, tstop>>
Next == Silent \/ Step
Spec == Init /\ [][Next]_<<tid, l, srv, ph, api, done, open, cl, acks, fin, lrun, req, inbox, lastrep, sig, tstop>>
=============================================================================
