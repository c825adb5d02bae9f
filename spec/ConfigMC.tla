------------------------------ MODULE ConfigMC ------------------------------
(* Every setting, set in every combination of places, literally or by reference to a *)
(* param which is itself set in every combination of places: configurations for the   *)
(* real code.  Each one has a second stage in the same directory which sets nothing.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES C, path, at, ref, pat
M == INSTANCE Config
Settings == {<<"mysql", x>> : x \in M!MySQLStr \cup {"disable-auto-tls"}} \cup {<<"tls", x>> : x \in M!TlsStr \cup {"skip-verify", "disable"}}
            \cup {<<"stats", x>> : x \in {"disable", "freq"}} \cup {<<"params", "p">>, <<"report", "csv", "o">>, <<"report", "stdout", "o">>}
            \cup {<<"name">>, <<"runtime">>, <<"qps">>, <<"tps">>, <<"compute", "instances">>, <<"compute", "disable-local">>, <<"disable">>}
            \cup {<<"workload", "1", x>> : x \in M!ClientNum \cup {"db", "group", "runtime", "disable-stats"}} \cup {<<"workload", "1", "trx", "1">>}
            \cup {<<"trx", "1", "data", "d", x>> : x \in {"name", "generator", "scope"}} \cup {<<"trx", "1", "data", "d", "params", "p">>, <<"trx", "1", "name">>}
Places == {"base", "stage", "cli"}
CanCli(p) == p \in {<<"mysql", "dsn">>, <<"mysql", "db">>, <<"workload", "1", "db">>, <<"params", "p">>}
Init == /\ C = 0
        /\ path \in Settings
        /\ at \in SUBSET {x \in Places : x = "base" => M!Base(path)}
        /\ ("cli" \in at => CanCli(path))
        /\ ref \in {TRUE, FALSE} /\ (M!Bool(path) => ~ref)
        /\ pat \in IF ref THEN SUBSET Places ELSE {{}}
        /\ PrintT(<<"CASE", path, [x \in Places |-> x \in at], ref, [x \in Places |-> x \in pat]>>)
Next == UNCHANGED <<C, path, at, ref, pat>>
Spec == Init /\ [][Next]_<<C, path, at, ref, pat>>
=============================================================================
