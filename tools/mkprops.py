#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the single source for titles/statements).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,state,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))

p("C01","Stages and execution groups run one at a time, in configured order",
 "Stages execute in the order given on the command line, and the execution groups of a stage execute in workload order, one at a time: no statement of a later group or stage starts until every client of the current group has finished (or the stage was cut by a runtime limit or a CTRL-C). Every client of every client group in the current execution group is started, and client groups of the same execution group execute at the same time, not one after another. A disabled stage, and any stage under --test, executes no workload statement at all.",
 ["configurations","schedules","histories"],"every list of stage files, workload shape (groups, client groups, client counts), statement duration and client interleaving",
 "No existing test runs more than one execution group or stage against a server (stage tests need MySQL and are skipped); ordering has to hold for every schedule of concurrently finishing clients.",
 ["stage/stage.go","compute/server.go","workload/workload.go"],
 [("nClients","clients of the current group still running","stage/stage.go Run"),("execGroups","client groups by execution group","stage/stage.go")],
 [("sequential execution group loop that waits for the done channel","stage/stage.go Run"),("stage loop","compute/server.go Run")],
 ["statement start/end at the MySQL server","process exit"])

p("C02","Workload allocation: groups, names, clients, assigned trx, DDL defaults",
 "For every trx list and workload section, client groups are arranged into execution groups exactly as documented: consecutive client groups with the same (explicit or automatic) name share one execution group; without names a client group with DDL gets its own group and consecutive DML-only client groups share one; an empty workload is split automatically into DDL and DML runs. Each client group gets exactly its configured number of clients, each client executes exactly the trx listed for it in the listed order with repeats (all trx in trx order when none are listed), and a client group with DDL and no iteration limit of its own runs one iteration. Every client is identified by the stage, execution group, client group and client number it was allocated under.",
 ["configurations"],"every trx list (DDL or DML), workload of any number of client groups with or without names, trx lists, clients and iterations",
 "Table tests cover nine hand-picked workloads; the rules interact (names x DDL x omitted trx x repeats) over an unbounded configuration space.",
 ["workload/workload.go","config/file.go"],
 [("groups","[][]int of workload indexes per execution group","workload/workload.go Groups")],
 [("Groups / AutoAssign / Clients","workload/workload.go")],
 ["workload.Allocator Groups and Clients results","statements each client sends to MySQL"])

p("C03","A client executes its trx statements exactly, in order, every iteration",
 "In each iteration a client executes every statement of every trx assigned to it exactly once, in file and assignment order, on its own single MySQL connection with its configured default database, and sends nothing else: the next statement starts only after the previous one returned. An iteration starts with the first statement of the first trx and, unless a statement fails or a limit stops the client, is completed. Statements marked for preparation are prepared once per connection (once for all copies of a statement) and executed through that prepared statement; the iteration, trx, statement and connection counts a client exposes to data generators advance in step with what it executes.",
 ["schedules","histories","configurations"],"every trx/statement list, modifier combination, number of clients and iterations, and interleaving of clients",
 "The client loop has no unit test that runs without MySQL; order and exactly-once execution must hold over arbitrarily long histories of concurrent clients.",
 ["client/client.go","workload/workload.go"],
 [("RunCount","iteration, trx, statement and connection counters","client/client.go Run")],
 [("ITER loop","client/client.go Run"),("Connect prepares and selects the database","client/client.go Connect")],
 ["statements, prepares and connections at the MySQL server"])

p("C04","Iteration limits are exact",
 "With iter N each client starts exactly N iterations; with iter-clients N the clients of the client group together start exactly N; with iter-exec-group N all clients of the execution group together start exactly N; with combinations, no limit is exceeded and a client stops only when one of the limits that applies to it is used up. An iteration that fails counts as started, each client group has its own iter-clients budget and each execution group its own iter-exec-group budget, and a client never stops in the middle of an iteration because of an iteration limit.",
 ["schedules","configurations","fault_sequences"],"every combination of the three limits, client count and client-group mix, every interleaving of clients claiming iterations, and query errors in between",
 "The shared budgets are claimed concurrently; no existing test executes clients, so neither over- nor under-execution can show.",
 ["client/client.go","workload/workload.go"],
 [("IterClientsPtr, IterExecGroupPtr","shared claimed-iteration counters","client/client.go")],
 [("atomic claims at the top of the iteration loop","client/client.go Run")],
 ["first statement of each iteration at the MySQL server, per client"])

p("C05","Query errors are handled as documented, and execution resumes correctly",
 "After a query error the client starts a new iteration from its first statement: for deadlock (1213), query killed (1317), duplicate key (1062), lock wait timeout (1205) and read-only (1290, 1836) it keeps its connection, and for 1205, 1290 and 1836 it first executes ROLLBACK on it; after any other error it disconnects and continues on a new connection, with its default database selected and its statements prepared again, never reusing the failed connection or its transaction. A DDL statement failing with an error not handled specially stops that client, as does a failed ROLLBACK; no other client is affected, and each recovery advances the connection count seen by data generators by one.",
 ["fault_sequences","crash_points","schedules"],"every error code and dropped connection, at every statement (including the first and last of a trx, prepared or not), repeated and from several clients at once",
 "No existing test makes a query fail; recovery depends on which statement failed, with which error, how often, and on connection state.",
 ["client/client.go","finch.go"],
 [("MySQLErrorHandling","error code to handling flags","finch.go"),("trxActive","whether a ROLLBACK is due","client/client.go")],
 [("Connect called with the query error","client/client.go Connect"),("continue ITER","client/client.go Run")],
 ["statements and connections at the MySQL server after an injected error"])

p("C06","Runtime limits and CTRL-C stop execution promptly and completely",
 "When a stage runtime elapses, all its clients stop and no further execution group of the stage runs on; when a client group runtime elapses, the clients of that client group stop while other client groups continue under their own limits, and the earliest of all limits that apply to a client wins. After CTRL-C no new stage or execution group starts and running clients stop. In every case the program terminates within a few seconds, still produces its final statistics report, and never reports a runtime stop as a client error.",
 ["configurations","schedules","histories"],"every combination of stage and client-group runtime, interrupt time, statement duration and execution-group layout",
 "No existing test runs a stage to a runtime limit without MySQL; it must hold for whatever the clients are doing when the limit hits.",
 ["stage/stage.go","client/client.go","compute/server.go","boot/boot.go"],
 [("ctxFinch, ctxStage, ctxClients","nested cancellation","stage/stage.go Run")],
 [("context deadlines and the client wait loop","stage/stage.go Run")],
 ["time of the last statement start and of process exit, final report"])

p("C07","Single-client data scopes: statement, trx, iter and client",
 "A statement-, trx-, iter- or client-scoped data key yields a new value exactly when its scope iteration changes (each execution of the statement, each trx, each iteration, each connect or error recovery of the client) and the same value everywhere else in between. Each scope instance has its own generator, unique to that statement, trx or client, so a stateful generator counts independently in each of them and one client never influences another's values. Statement scope is the default, and a saved column defaults to trx scope.",
 ["histories","configurations","fault_sequences"],"every scope, placement of the key over statements and trx, number of clients and iterations, with errors and recoveries in between",
 "Unit tests call one generator with hand-built counters; the value seen in SQL depends on allocation, counters and history together.",
 ["data/scope.go","workload/workload.go","finch.go","client/client.go"],
 [("last, vals","run count and value of the last call","data/scope.go ScopedGenerator"),("CopiedAt","run level of the last copy","data/scope.go Scope")],
 [("Scope.Copy / RunLevel.GreaterThan","data/scope.go, finch.go"),("ScopedGenerator.Values","data/scope.go")],
 ["values in the statements received by the MySQL server"])

p("C08","Shared data scopes: client-group, exec-group and workload",
 "A data key with client-group, exec-group or workload scope has exactly one generator shared by all clients of that client group, execution group or stage; it is called once each time any one of those clients starts a new iteration in which it uses the key, and that client sees that value unchanged for the rest of the iteration. Concurrent clients never receive each other's value, a value of a counting generator is never given out twice or skipped, and groups outside the scope have their own generator.",
 ["schedules","configurations","histories"],"every scope, layout of execution and client groups, client count, and interleaving of clients drawing values",
 "Shared generators are used concurrently by clients that carry the same client number in different groups; existing tests exercise one client, one goroutine.",
 ["data/scope.go","workload/workload.go"],
 [("cgIter, cgVals","last iteration and value per client","data/scope.go ScopedGenerator")],
 [("mutex-protected per-client cache","data/scope.go Values/Call")],
 ["values in the statements received by the MySQL server"])

p("C09","One-time data scopes: stage and global",
 "A stage-scoped data key is generated exactly once per stage and every use of it in that stage, by any client in any group, sees that one value; a new stage generates a new one from that stage's own configuration. A global-scoped data key is generated once per run of the program and keeps its value across stages. Both hold when many clients use the key for the first time at once, and an explicit call replaces the value for later uses.",
 ["schedules","histories","configurations"],"every number of stages, groups and clients, and every interleaving of first uses",
 "Nothing tests stage or global scope values; they span stages and clients and race on first use.",
 ["data/scope.go","compute/server.go"],
 [("oneTime, vals","the one generated value","data/scope.go ScopedGenerator"),("gds","data scope kept across stages","compute/server.go")],
 [("Values one-time branch","data/scope.go"),("Scope.Reset between stages","data/scope.go")],
 ["values in the statements received by the MySQL server"])

p("C10","Explicit calls, row scope and value scope",
 "An explicit call @d() always generates a new value, which later implicit uses in the same scope iteration then see; with value scope every occurrence has its own generator and yields a new value on every execution. In a CSV substitution every data key without a configured scope is row scoped: each of the N rows gets a new value at the first occurrence of the key in the row and repeats that value at its other occurrences in that row, while keys with another scope keep that scope. This holds for every set of key names, including names that are prefixes of other names.",
 ["inputs","configurations","histories"],"every template, key set (including prefix-related names), number of rows, scope configuration and mix of implicit and explicit calls",
 "Tests check a handful of templates; the row rewriting is textual and name-dependent and the values depend on call history.",
 ["trx/trx.go","data/scope.go","workload/workload.go"],
 [("Calls","explicit call flag per input","trx/trx.go Statement")],
 [("RowScope and Calls","trx/trx.go"),("ScopedGenerator.Call","data/scope.go")],
 ["values in the statements received by the MySQL server"])

p("C11","Built-in data generators produce what they document",
 "For every valid configuration: int stays within [min, max] and can return each of them equally often (or, if normal, around its mean); int-gaps yields only the evenly spread p percent of [min, max]; int-range yields pairs within [min, max] spanning at most size values; int-range-seq walks begin..end in consecutive non-overlapping chunks of size (last one short) and then starts over; auto-inc yields start+step, start+2*step, ...; str-fill-az yields exactly len letters, each equally likely; xid values are unique; client-id yields the requested identifiers in order. A generator shared by concurrent clients never loses, repeats or corrupts a value because of concurrency, copies made of a generator each start from its configuration and are independent of each other, and no valid configuration makes a generator crash.",
 ["inputs","schedules","configurations"],"every valid generator configuration, sequence length and number of concurrent callers",
 "Tests sample one configuration per generator from one goroutine; boundaries and concurrent callers are not reached.",
 ["data/integer.go","data/string.go","data/id.go","data/generator.go"],
 [("i, n","next value","data/integer.go")],
 [("atomic add / mutex in Values","data/integer.go")],
 ["data.Make(...).Values results from one and many goroutines"])

p("C12","QPS and TPS limits are never exceeded at any level",
 "For each configured rate limit - stage, execution group, client group, single client, for queries or transactions - the statements (or explicit BEGIN statements for TPS) executed by all clients the limit covers never exceed the configured rate over the time since the stage started, beyond a small constant burst. When several limits apply, all of them hold at once; clients not covered by a limit are not slowed by it; throttled clients are delayed, not stopped, so all configured work is still executed.",
 ["configurations","schedules"],"every combination of the eight rate options, client/group layout and statement duration",
 "The only rate tests exercise one limiter in isolation; sharing between clients and combination of levels is untested.",
 ["limit/rate.go","workload/workload.go","client/client.go"],
 [("QPS, TPS","per-client permission channels","client/client.go")],
 [("NewRate / And","limit/rate.go"),("combination per level","workload/workload.go Clients")],
 ["statement arrival times at the MySQL server"])

p("C13","Data limits stop writing at the configured rows or size",
 "A rows limit lets a statement execute as long as fewer than the configured number of rows (counting the offset) were affected by it across all clients, and stops each client at that statement afterwards; a single client therefore never executes it again once the limit is reached and never stops before. A table-size or database-size limit stops clients at the first periodic check that finds the total size at or above the limit, and not before; with several limits on a statement the first one reached stops it. The count is shared by all clients executing the statement and is not lost or double counted under concurrency.",
 ["configurations","schedules","histories"],"every limit value, rows affected per statement, number of clients, and sequence of reported sizes",
 "One unit test of the size limit needs MySQL and is skipped; row limits are tested single-threaded.",
 ["limit/data.go","client/client.go","trx/trx.go"],
 [("Rows.n","rows affected so far","limit/data.go"),("Size.bytes","last size seen","limit/data.go")],
 [("More before and Affected after each limited statement","client/client.go Run")],
 ["limited statements and size queries at the MySQL server"])

p("C14","Every executed query is counted exactly once in the statistics",
 "Every statement a client executes, including one that returns an error, is counted exactly once in the statistics of its trx, of its type (SELECT as read; INSERT, UPDATE, DELETE, REPLACE as write; COMMIT as commit; everything in the total) and of exactly one reporting interval, and every query error is counted once under its MySQL error code. Response times recorded are within what the client could have observed, min and max are exact over the interval's events, intervals start from zero, and the reported number of clients is the number of clients with statistics; client groups with statistics disabled contribute nothing.",
 ["schedules","histories","configurations","fault_sequences"],"every workload, reporting frequency, point at which an interval ends relative to running statements, and error sequence",
 "Tests feed synthetic numbers to one Stats; whether executed statements and reported counts agree needs whole runs with concurrent recording and collecting.",
 ["stats/stats.go","stats/collector.go","client/client.go","workload/workload.go"],
 [("a, b, sp","double-buffered statistics per client and trx","stats/stats.go Trx")],
 [("Record/Error in the client loop","client/client.go"),("Swap and Combine","stats/stats.go, stats/collector.go Collect")],
 ["statistics given to reporters versus statements at the MySQL server"])

p("C15","Interval collection from all instances is complete, ordered, never mixed",
 "Statistics from all instances are reported interval by interval in increasing order, each interval at most once, and each report contains only statistics of that interval with at most one entry per instance. An interval is reported as soon as the statistics of all instances for it have arrived; it is reported incomplete only when a later interval's statistics show up first or when the final wait times out, and statistics that arrive after their interval was reported are discarded. The final report at the end of a stage contains everything that arrived in time, an empty interval is never reported, and no arrival order, loss, duplication or delay of remote statistics makes the program crash or hang.",
 ["schedules","fault_sequences","histories"],"every arrival order, loss, duplication and delay of per-instance interval statistics relative to local collection and stop",
 "Tests cover one instance and one in-order remote; order, loss and timing of remote statistics are schedule-dependent.",
 ["stats/collector.go","compute/api.go"],
 [("intervalNo, interval, n","interval being filled","stats/collector.go Collector")],
 [("Collect, Recv, Report, Stop","stats/collector.go")],
 ["calls to registered reporters"])

p("C16","Percentiles and reports agree with the recorded events",
 "Each event lands in the histogram bucket whose range contains its response time, combining statistics adds counts, buckets and errors and takes the smaller minimum and larger maximum of the sides that have events, and copying or resetting leaves nothing of the earlier values behind. A reported percentile lies in the bucket that contains the event of that rank (or at the midpoint to its predecessor), for every list of percentiles in any order and any distribution, and percentiles never decrease with rank. CSV and stdout lines show, for each interval, the interval's own numbers: per-second rates from its counts and duration, exact min and max, the requested percentiles and the error total, combined over instances.",
 ["inputs","histories"],"every multiset of response times, percentile list, split over instances and sequence of intervals",
 "Tests use one latency distribution with ascending percentiles; empty sides, shared buckets and unsorted lists are not reached.",
 ["stats/stats.go","stats/reporter.go","stats/csv.go","stats/stdout.go"],
 [("Buckets, Min, Max, N","histogram and extremes","stats/stats.go Stats")],
 [("Record, Combine, Copy, Percentiles","stats/stats.go"),("Report","stats/csv.go, stats/stdout.go")],
 ["Stats after operations, CSV and stdout output"])

p("C17","Server coordination: barrier, membership and stage identity",
 "With N compute instances no instance executes a workload statement of a stage before all N (local included unless disabled) have booted that stage, at most N instances are ever admitted to it, and the server moves on only after every admitted instance reported done (or on CTRL-C, after a bounded wait). Each admitted remote is handed the current stage's configuration and files; a remote that fails to boot does not count as booted and its place can be taken by it or another remote; requests from unknown instances, for another stage, or out of protocol order are rejected without changing any state, and a repeated request (a retry) never counts twice. A remote whose request is abandoned never occupies a place, and an instance stopped early is told so on its next check-in.",
 ["schedules","fault_sequences","histories"],"every interleaving, repetition, loss and abandonment of protocol requests from any number of remotes over any number of stages",
 "API tests exist for single happy-path requests at best; the barrier and membership are concurrent protocol properties.",
 ["compute/api.go","compute/server.go"],
 [("stageMeta.clients","admitted remotes","compute/api.go"),("client.state","protocol state of a remote","compute/api.go"),("bootChan, runChan, doneChan","barriers","compute/server.go")],
 [("boot, run, client handlers","compute/api.go"),("run waits for acks","compute/server.go")],
 ["HTTP responses of the server, local instance's statements at MySQL"])

p("C18","Remote instances follow the protocol, deliver results and stop when told",
 "A remote instance boots from exactly the configuration and files the server sends (every trx file with its own content), acknowledges boot exactly once with success or with the error, and executes nothing before the server's run signal or after a failed boot. While running it sends the statistics of every interval to the server with the stage's identity, it stops within seconds when the server says the stage is over or contact is lost, and it always reports done after running. A request that is retried carries the same content as the first attempt, so a retry never turns an error into success or loses data.",
 ["fault_sequences","schedules","histories"],"every sequence of server responses, delays, errors and lost replies, and every set of trx files",
 "Proto tests cover a single request; loss and retry of each protocol step, and multi-file transfers, are not exercised.",
 ["compute/client.go","proto/proto.go","stats/remote.go"],
 [("StageId","stage identity sent with every request","proto/proto.go Client")],
 [("run: boot, file, ack, run, ping, done","compute/client.go"),("request retry loop","proto/proto.go")],
 ["HTTP requests received by the server, statements at MySQL"])

p("C19","Configuration resolution: inheritance, overrides and interpolation",
 "For every stage, the effective configuration is: command-line values (DSN, database, params) over stage-file values over the directory's base-file values over defaults, decided setting by setting. Every $params.x, ${params.x}, $sys.x and environment reference is replaced by exactly its value wherever documented - also when one name is a prefix of another or a value refers to another param - human-readable numbers become integers, and an undefined reference is an error. Unknown settings, values of the wrong type, and references to trx that do not exist are refused, never ignored. Settings of one stage never leak into another.",
 ["configurations","inputs"],"every combination of base file, stage files, command-line options and parameter names and values",
 "Tests load a few fixed files; precedence and substitution must hold for every combination and naming.",
 ["config/config.go","config/file.go","boot/cmdline.go"],
 [("Params","user-defined parameters","config/file.go Stage")],
 [("Load, With, CommandLine, Vars","config/config.go, config/file.go")],
 ["config.Load and config.Vars results"])

p("C20","Trx files become exactly the statements written",
 "For every trx file the resulting statement list is the written SQL in file order with statements separated by blank lines, joined over lines, with modifiers, copies, copy numbers and CSV expansion applied as documented and each data key replaced by its own value (or parameter marker when prepared), also when one key's name is a prefix of another's. Statements are classified by their first word as read, write, begin, commit or DDL, and a trx is DDL exactly when it contains a DDL statement. Invalid modifiers and unconfigured data keys are reported as errors rather than ignored or crashing.",
 ["inputs"],"every trx file built from statements, modifiers, substitutions and data keys",
 "Tests load a few fixed files; the parser is textual and the space of files is unbounded.",
 ["trx/trx.go"],
 [("lb","lines and modifiers of the current statement","trx/trx.go File")],
 [("line, statements, column","trx/trx.go")],
 ["trx.Load results and statements received by the MySQL server"])

p("C21","Saved columns and insert IDs carry the right value",
 "A column saved from a SELECT holds the value of that column in the last row of the most recent result set executed by the same client, and a saved insert ID holds the insert ID of that client's most recent execution of the statement; the data key yields exactly that value when it is next read in its scope (a scope reads the saved value at its first use in each period: each trx, each iteration, ...), quoted only when configured. Ignored columns are skipped without shifting the others, values never cross between clients in single-client scopes, and an empty result leaves the previous value in place.",
 ["histories","schedules","configurations"],"every number of columns and rows, numeric and string (non-NULL) types, position of ignored columns, repeated executions, and number of concurrent clients",
 "Existing tests stop at the parser; data flow between statements needs execution against results.",
 ["data/column.go","client/client.go","trx/trx.go","workload/workload.go"],
 [("val, bytes","saved value","data/column.go Column")],
 [("rows.Scan into outputs","client/client.go Run"),("InsertId.Scan","client/client.go Run")],
 ["values in later statements received by the MySQL server"])

p("C22","MySQL connection settings and credentials",
 "The MySQL connection of every stage uses the DSN when one is given, and otherwise exactly the configured user, password (file content over inline value), socket over host, default database, connect timeout and TLS settings, with unset values taken from the my.cnf file and then from documented defaults. Each stage uses its own settings, and a password never appears in the printed connection string, whatever characters the settings contain.",
 ["configurations","inputs"],"every combination of set and unset connection settings, my.cnf content and special characters",
 "DSN tests need MySQL and are skipped; my.cnf tests cover parsing of two files only.",
 ["dbconn/factory.go","dbconn/mycnf.go","config/file.go"],
 [("f.cfg, f.my","current connection settings","dbconn/factory.go")],
 [("setDSN, MySQL.With, ParseMyCnf, redacted","dbconn/factory.go, config/file.go")],
 ["handshake received by the MySQL server, returned and printed DSN"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
