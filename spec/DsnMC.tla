------------------------------- MODULE DsnMC --------------------------------
(* Every combination of the places in which the user and password, the address, the TLS   *)
(* files, and the DSN and database are set: runs of two stages for the real code.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES g, a, b, c, d
P3 == SUBSET {"stage", "base", "mycnf"}
P2 == SUBSET {"stage", "base"}
PC == SUBSET {"stage", "base", "cli"}
Show(s) == [x \in {"stage", "base", "mycnf", "cli"} |-> x \in s]
Init == /\ \/ g = "cred" /\ a \in P3 /\ b \in P3 /\ c \in P2 /\ d = {}                \* user, password, password file
           \/ g = "addr" /\ a \in P3 /\ b \in P3 /\ c \in SUBSET {"mycnf"} /\ d = {}     \* host, socket, port
           \/ g = "tls"  /\ a \in P3 /\ b \in P3 /\ c \in P2 /\ d \in SUBSET {"stage"}   \* ca, cert and key, disable, skip-verify
           \/ g = "dsn"  /\ a \in PC /\ b \in PC /\ c \in SUBSET {"mycnf"} /\ d = {}      \* DSN, database
        /\ PrintT(<<"CASE", g, Show(a), Show(b), Show(c), Show(d)>>)
Next == UNCHANGED <<g, a, b, c, d>>
Spec == Init /\ [][Next]_<<g, a, b, c, d>>
=============================================================================
