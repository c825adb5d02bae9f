------------------------------ MODULE TrxFile -------------------------------
(* What the statements of trx files are.  A file is a sequence of blocks (modifiers  *)
(* and SQL); SQL is a sequence of parts: literal text, percent signs, data keys,     *)
(* @PREV, the copy number, and CSV substitutions (a number and a template of parts). *)
(* A statement is a record: its text with the i-th value written as ni, 'si' or ? ,  *)
(* its data keys in order, which of them are explicit calls, and its attributes.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE C      \* the case: files, data (configuration of the data keys)

None == "-"
Upper(s) ==
  LET U == [a |-> "A", b |-> "B", c |-> "C", d |-> "D", e |-> "E", f |-> "F", g |-> "G", h |-> "H", i |-> "I", j |-> "J", k |-> "K", l |-> "L",
            m |-> "M", n |-> "N", o |-> "O", p |-> "P", q |-> "Q", r |-> "R", s |-> "S", t |-> "T", u |-> "U", v |-> "V", w |-> "W", x |-> "X", y |-> "Y", z |-> "Z"]
      up[i \in 0..Len(s)] == IF i = 0 THEN "" ELSE up[i - 1] \o (LET c == SubSeq(s, i, i) IN IF c \in DOMAIN U THEN U[c] ELSE c)
  IN up[Len(s)]
Reads(w)  == Upper(w) = "SELECT"
Begins(w) == Upper(w) \in {"BEGIN", "START"}
Writes(w) == Upper(w) \in {"INSERT", "UPDATE", "DELETE", "REPLACE"}
Commits(w) == Upper(w) = "COMMIT"
Ddl(w)    == Upper(w) \in {"ALTER", "CREATE", "DROP", "RENAME", "TRUNCATE"}

Mods(b, m) == SelectSeq(b.mods, LAMBDA x : x.m = m)
Has(b, m)  == Mods(b, m) # <<>>
Saves(b)   == {x.k : x \in {b.mods[i] : i \in {i \in DOMAIN b.mods : b.mods[i].m = "insertid"}}}
              \cup UNION {{x.ks[j] : j \in DOMAIN x.ks} \ {"_"} : x \in {b.mods[i] : i \in {i \in DOMAIN b.mods : b.mods[i].m = "columns"}}}
SavedTwice(b) == \E i, j \in DOMAIN b.mods : LET x == b.mods[i] y == b.mods[j] IN
                   \/ i < j /\ x.m = "insertid" /\ y.m = "insertid" /\ x.k = y.k
                   \/ x.m = "insertid" /\ y.m = "columns" /\ x.k \in {y.ks[n] : n \in DOMAIN y.ks}
                   \/ i < j /\ x.m = "columns" /\ y.m = "columns" /\ \E n \in DOMAIN x.ks : x.ks[n] # "_" /\ x.ks[n] \in {y.ks[o] : o \in DOMAIN y.ks}
                   \/ i = j /\ x.m = "columns" /\ \E n, o \in DOMAIN x.ks : n < o /\ x.ks[n] # "_" /\ x.ks[n] = x.ks[o]
Copies(b)  == IF Has(b, "copies") THEN Mods(b, "copies")[1].n ELSE 1

-----------------------------------------------------------------------------
(* the text: CSV and copy number expanded into literals and keys *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
RowKey(k, saved) == k # "@PREV" /\ k \notin saved /\ k \in DOMAIN C.data /\ C.data[k].scope \in {"", "row"}
\* the first use of a row scoped key in the template generates a new value
Template(t, saved) == [i \in DOMAIN t |->
  IF t[i].t = "key" /\ RowKey(t[i].k, saved) /\ \A j \in 1..(i - 1) : t[j].t # "key" \/ t[j].k # t[i].k
  THEN [t[i] EXCEPT !.call = TRUE] ELSE t[i]]
Comma == <<[t |-> "lit", v |-> ", "]>>
Csv(n, t) == Flat([i \in 1..(2 * n - 1) |-> IF i % 2 = 1 THEN t ELSE Comma])
Expand(parts, saved) ==
  TLCEval(Flat([i \in DOMAIN parts |-> IF parts[i].t = "csv" THEN Csv(parts[i].n, TLCEval(Template(parts[i].ps, saved))) ELSE <<parts[i]>>]))

Format(k, n, saved) ==
  CASE k \in DOMAIN C.data -> (IF C.data[k].quoted THEN "'s" \o ToString(n) \o "'" ELSE C.data[k].plain \o ToString(n))
    [] OTHER -> "s" \o ToString(n)
Percent(n, format) == IF format THEN "%" ELSE IF n = 1 THEN "%" ELSE "%%"

\* text of the expanded parts from i on, n values so far, last key before
RECURSIVE Text(_, _, _, _, _, _, _)
Text(ps, i, n, last, prep, copyno, saved) ==
  IF i > Len(ps) THEN ""
  ELSE LET x == ps[i] keyed == \E j \in DOMAIN ps : ps[j].t = "key" IN
    CASE x.t = "lit" -> x.v \o Text(ps, i + 1, n, last, prep, copyno, saved)
      [] x.t = "pct" -> Percent(x.n, keyed /\ ~prep) \o Text(ps, i + 1, n, last, prep, copyno, saved)
      [] x.t = "copyno" -> ToString(copyno) \o Text(ps, i + 1, n, last, prep, copyno, saved)
      [] x.t = "key" ->
           LET k == IF x.k = "@PREV" THEN last ELSE x.k IN
           (IF prep THEN "?" ELSE Format(k, n + 1, saved)) \o Text(ps, i + 1, n + 1, k, prep, copyno, saved)
Keys(ps) == LET ks == SelectSeq(ps, LAMBDA x : x.t = "key") IN ks
HasCopyNo(ps) == \E i \in DOMAIN ps : ps[i].t = "copyno" \/ (ps[i].t = "csv" /\ \E j \in DOMAIN ps[i].ps : ps[i].ps[j].t = "copyno")

Statement(name, b, copyno, saved) ==
  LET ps == Expand(b.parts, saved)
      ks == TLCEval(Keys(ps))
      prep == Has(b, "prepare")
      idles == Mods(b, "idle") IN
  [trx |-> name, text |-> Text(ps, 1, 0, "", prep, copyno, saved), inputs |-> [i \in DOMAIN ks |-> ks[i].k], calls |-> [i \in DOMAIN ks |-> IF ks[i].call THEN 1 ELSE 0],
   outputs |-> Flat([i \in DOMAIN b.mods |-> IF b.mods[i].m = "insertid" THEN <<b.mods[i].k>> ELSE IF b.mods[i].m = "columns" THEN b.mods[i].ks ELSE <<>>]),
   insertid |-> (IF Has(b, "insertid") THEN Mods(b, "insertid")[Len(Mods(b, "insertid"))].k ELSE ""),
   prepare |-> prep, read |-> Reads(b.w), begin |-> Begins(b.w), commit |-> Commits(b.w), write |-> Writes(b.w), ddl |-> Ddl(b.w),
   idle |-> (IF idles = <<>> THEN 0 ELSE idles[Len(idles)].ms), limited |-> Has(b, "rows") \/ Has(b, "size"),
   multi |-> IF copyno = 1 /\ Copies(b) > 1 /\ prep /\ ~HasCopyNo(b.parts) THEN Copies(b) ELSE 0]

\* columns and insert IDs saved by the blocks before block j of file i, and by it
SavedBy(i, j) == UNION {Saves(C.files[x].blocks[y]) : <<x, y>> \in {<<x, y>> \in (1..i) \X (1..100) : y \in DOMAIN C.files[x].blocks /\ (x < i \/ y <= j)}}
BlockStatements(i, j) == LET b == C.files[i].blocks[j] saved == TLCEval(SavedBy(i, j)) IN
                         [c \in 1..Copies(b) |-> Statement(C.files[i].name, b, c, saved)]
Statements(i) == Flat([j \in DOMAIN C.files[i].blocks |-> BlockStatements(i, j)])
IsDdl(i) == \E j \in DOMAIN C.files[i].blocks : Ddl(C.files[i].blocks[j].w)

-----------------------------------------------------------------------------
(* files which must be refused *)
BlockKeys(b) == LET ks(ps) == {ps[i].k : i \in {i \in DOMAIN ps : ps[i].t = "key"}} IN
                ks(b.parts) \cup UNION {ks(b.parts[i].ps) : i \in {i \in DOMAIN b.parts : b.parts[i].t = "csv"}}
FirstKey(b) == LET ks == Keys(Expand(b.parts, {})) IN IF ks = <<>> THEN "" ELSE ks[1].k
BadBlock(i, j) ==
  LET b == C.files[i].blocks[j] IN
  \/ \E m \in DOMAIN b.mods : b.mods[m].m = "bad"
  \/ Copies(b) < 0
  \/ Has(b, "insertid") /\ Reads(b.w)
  \/ Copies(b) > 0 /\ FirstKey(b) = "@PREV"
  \/ Copies(b) > 0 /\ \E k \in BlockKeys(b) \ {"@PREV"} : k \notin DOMAIN C.data /\ k \notin SavedBy(i, j)
  \/ Copies(b) > 0 /\ (SavedTwice(b) \/ (Copies(b) > 1 /\ Saves(b) # {}))
  \/ \E k \in Saves(b) : k \in SavedBy(i, j - 1)
Unused(i) == \E j \in DOMAIN C.files[i].blocks : \E k \in Saves(C.files[i].blocks[j]) :
               ~\E n \in j..Len(C.files[i].blocks) : k \in BlockKeys(C.files[i].blocks[n]) /\ Copies(C.files[i].blocks[n]) > 0
Empty(i) == \A j \in DOMAIN C.files[i].blocks : Copies(C.files[i].blocks[j]) = 0
SameName == \E i, j \in DOMAIN C.files : i < j /\ C.files[i].name = C.files[j].name
Refuse == \/ \E i \in DOMAIN C.files : Empty(i) \/ Unused(i) \/ \E j \in DOMAIN C.files[i].blocks : BadBlock(i, j)
\* not documented: saving a key which a statement before used; DDL and saved columns of statements with no copies
Open == \/ \E i, x \in DOMAIN C.files : \E j \in DOMAIN C.files[i].blocks, y \in DOMAIN C.files[x].blocks :
             (i < x \/ (i = x /\ j < y)) /\ BlockKeys(C.files[i].blocks[j]) \cap (Saves(C.files[x].blocks[y]) \ SavedBy(i, j)) # {}
        \/ \E i \in DOMAIN C.files : \E j \in DOMAIN C.files[i].blocks : LET b == C.files[i].blocks[j] IN 
             Copies(b) = 0 /\ (Ddl(b.w) \/ Saves(b) # {} \/ \E m \in DOMAIN b.mods : b.mods[m].m = "bad")

-----------------------------------------------------------------------------
(* the data keys of all files *)
AllKeys == UNION {UNION {(IF Copies(C.files[i].blocks[j]) > 0 THEN BlockKeys(C.files[i].blocks[j]) \cup Saves(C.files[i].blocks[j]) ELSE {}) : j \in DOMAIN C.files[i].blocks} : i \in DOMAIN C.files} \ {"@PREV"}
AllSaved == UNION {UNION {Saves(C.files[i].blocks[j]) : j \in DOMAIN C.files[i].blocks} : i \in DOMAIN C.files}
\* is the first block which uses k using it in a CSV template?
InCsv(b, k) == \E i \in DOMAIN b.parts : b.parts[i].t = "csv" /\ \E n \in DOMAIN b.parts[i].ps : b.parts[i].ps[n].t = "key" /\ b.parts[i].ps[n].k = k
Uses(k) == {<<i, j>> \in (1..Len(C.files)) \X (1..100) : j \in DOMAIN C.files[i].blocks /\ Copies(C.files[i].blocks[j]) > 0 /\ k \in BlockKeys(C.files[i].blocks[j])}
FirstUse(k) == CHOOSE u \in Uses(k) : \A v \in Uses(k) : u[1] < v[1] \/ (u[1] = v[1] /\ u[2] <= v[2])
Configured(k) == IF k \in DOMAIN C.data THEN C.data[k].scope ELSE ""
KeyScope(k) == IF Configured(k) # "" THEN Configured(k)
               ELSE IF k \in AllSaved THEN "trx"
               ELSE LET u == FirstUse(k) IN IF InCsv(C.files[u[1]].blocks[u[2]], k) THEN "row" ELSE "statement"
=============================================================================
