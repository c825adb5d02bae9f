------------------------------ MODULE ComputeMC ------------------------------
(* Exhaustive check of Compute.tla: every interleaving of the server with up  *)
(* to MaxReq requests from a few remotes, well-behaved or not.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Names, MaxReq, MaxPend, MCStages, MCTest, WithSig
VARIABLES srv, ph, api, done, open, cl, acks, fin, lrun, req, inbox, lastrep, sig, tstop, nreq
C == INSTANCE Compute WITH Stages <- MCStages, Test <- MCTest, Slack <- 0, StopWait <- 0
vars == <<srv, ph, api, done, open, cl, acks, fin, lrun, req, inbox, lastrep, sig, tstop, nreq>>

Ops == {"getboot", "postboot", "getrun", "postrun", "ping", "stats"}
New(op, n, sid, arg) == [op |-> op, name |-> n, sid |-> sid, arg |-> arg, i |-> 0, interval |-> 1,
                         tag |-> 0, ab |-> -1, st |-> "new", k |-> 0]

Send == /\ nreq < MaxReq /\ Cardinality(DOMAIN req) < MaxPend
        /\ \E op \in Ops, n \in Names, sid \in {api, -1}, arg \in {"", "err"} :
             /\ (arg = "err" => op = "postboot") /\ (sid = -1 => op \in {"postboot", "postrun", "ping"})
             \* a remote has one request of a kind at a time
             /\ ~\E x \in DOMAIN req : req[x].name = n /\ req[x].op = op
             /\ req' = C!Put(req, nreq + 1, New(op, n, sid, arg))
        /\ nreq' = nreq + 1
        /\ UNCHANGED <<srv, ph, api, done, open, cl, acks, fin, lrun, inbox, lastrep, sig, tstop>>
Answer == /\ \E x \in DOMAIN req : /\ req[x].st # "new" /\ req' = C!Drop1(req, x)
          /\ UNCHANGED <<srv, ph, api, done, open, cl, acks, fin, lrun, inbox, lastrep, sig, tstop, nreq>>
Abandon == /\ \E x \in DOMAIN req : /\ req[x].st = "new" /\ req[x].op \in {"getboot", "getrun"} /\ req' = C!Drop1(req, x)
           /\ UNCHANGED <<srv, ph, api, done, open, cl, acks, fin, lrun, inbox, lastrep, sig, tstop, nreq>>
Signal == /\ WithSig /\ sig < 0 /\ sig' = 0
          /\ UNCHANGED <<srv, ph, api, done, open, cl, acks, fin, lrun, req, inbox, lastrep, tstop, nreq>>
Srv == /\ \/ C!BeginStage \/ C!RetireOld \/ C!SetStage \/ C!Barrier \/ C!LocalEnd \/ C!StageEnd
          \/ C!Interrupt(0) \/ C!TakeDown(-1)
          \/ \E x \in DOMAIN req : C!Handle(x, 0)
       /\ UNCHANGED nreq
Init == C!CInit /\ nreq = 0
Next == Send \/ Answer \/ Abandon \/ Signal \/ Srv
Spec == Init /\ [][Next]_vars
AtMostN == C!AtMostN
AllBooted == C!AllBooted
AckExact == C!AckExact
MovesOn == C!MovesOn
FinOk == C!FinOk
Canon == <<srv, ph, api, done, open, cl, acks, fin, lrun, {req[x] : x \in DOMAIN req}, inbox, lastrep, sig, tstop, nreq>>
MCStages1 == <<[n |-> 3, local |-> TRUE, files |-> 1], [n |-> 2, local |-> FALSE, files |-> 1]>>
MCStages2 == <<[n |-> 2, local |-> TRUE, files |-> 1], [n |-> 1, local |-> TRUE, files |-> 1], [n |-> 2, local |-> TRUE, files |-> 1]>>
=============================================================================
