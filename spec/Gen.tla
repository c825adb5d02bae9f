-------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* The built-in data generators.  A generator is configured by a name and  *)
(* params p (a function from the names of the params that are set), and is *)
(* never called itself: copies of it are.  A copy is a sequence of values; *)
(* its state is how many it has returned.  Concurrent calls of a copy are  *)
(* calls in some order.                                                    *)
(*                                                                         *)
(* Numbers are integers, or (for the widest ranges) triples to base 2^24.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt

D(p, k, d) == IF k \in DOMAIN p THEN p[k] ELSE d
ROWS == 100000
IsBig(x) == x \in Seq(Int)
Le(a, b) == \/ a[1] < b[1]
            \/ a[1] = b[1] /\ a[2] < b[2]
            \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] <= b[3]
Ids == [statement |-> 1, trx |-> 2, iter |-> 3, conn |-> 4, client |-> 5] @@ ("client-group" :> 6) @@ ("exec-group" :> 7)

\* configurations every build must accept, and must refuse; others may be refused
Valid(g, p, big) ==
  CASE g = "int" -> IF big THEN Le(p.min, p.max) ELSE D(p, "min", 1) <= D(p, "max", ROWS) /\ D(p, "min", 1) >= 0
    [] g = "int-gaps" -> D(p, "min", 1) < D(p, "max", ROWS) /\ D(p, "p", 20) \in 1..100
    [] g = "int-range" -> /\ D(p, "min", 1) < D(p, "max", ROWS)
                          /\ D(p, "size", 100) \in 1..(D(p, "max", ROWS) - D(p, "min", 1))
    [] g = "int-range-seq" -> /\ D(p, "begin", 1) <= D(p, "end", ROWS)
                              /\ D(p, "size", 100) \in 1..(D(p, "end", ROWS) - D(p, "begin", 1))
    [] g = "auto-inc" -> D(p, "step", 1) >= 1
    [] g = "str-fill-az" -> D(p, "len", 100) >= 1
    [] g = "client-id" -> \A k \in DOMAIN p.ids : p.ids[k] \in DOMAIN Ids
    [] OTHER -> TRUE
Refuse(g, p, big) ==
  CASE g = "int-gaps" -> D(p, "min", 1) > D(p, "max", ROWS) \/ D(p, "p", 20) \notin 1..100
    [] g = "int-range" -> D(p, "min", 1) >= D(p, "max", ROWS)
    [] g = "int-range-seq" -> D(p, "begin", 1) > D(p, "end", ROWS)
    [] g = "str-fill-az" -> D(p, "len", 100) < 1
    [] g = "client-id" -> \E k \in DOMAIN p.ids : p.ids[k] \notin DOMAIN Ids
    [] OTHER -> FALSE

\* how many values a call returns (what Format says)
Width(g, p) == CASE g \in {"int-range", "int-range-seq"} -> 2
                 [] g = "client-id" -> Len(p.ids)
                 [] OTHER -> 1

\* int-range-seq: number of chunks, and chunk j (from 0)
Chunks(p) == (D(p, "end", ROWS) - D(p, "begin", 1)) \div D(p, "size", 100) + 1
Chunk(p, j) == LET b == D(p, "begin", 1) + j * D(p, "size", 100) e == b + D(p, "size", 100) - 1
               IN <<b, IF e > D(p, "end", ROWS) THEN D(p, "end", ROWS) ELSE e>>

\* int-gaps: the possible numbers of values (rounding), and value k (from 0) of n
GapN(p) == LET s == D(p, "max", ROWS) - D(p, "min", 1) + 1
               n == (s * D(p, "p", 20)) \div 100
               a == IF (s * D(p, "p", 20)) % 100 = 0 THEN {n - 1, n} ELSE {n}
           IN {IF x < 1 THEN 1 ELSE x : x \in a}
GapV(p, n, k) == LET w == D(p, "max", ROWS) - D(p, "min", 1)
                 IN IF n = 1 THEN D(p, "min", 1) ELSE D(p, "min", 1) + (k * w) \div (n - 1)
GapExact(p, n, k) == n = 1 \/ (k * (D(p, "max", ROWS) - D(p, "min", 1))) % (n - 1) = 0
GapOk(p, v) == D(p, "min", 1) <= v /\ v <= D(p, "max", ROWS) /\ \E n \in GapN(p) :
                 LET w == D(p, "max", ROWS) - D(p, "min", 1)
                     near == IF n = 1 THEN {0} ELSE LET k == ((v - D(p, "min", 1)) * (n - 1)) \div w IN {k, k + 1} \cap 0..(n - 1)
                 IN \E k \in near : v = GapV(p, n, k) \/ (GapExact(p, n, k) /\ k > 0 /\ v = GapV(p, n, k) - 1)

\* the k-th value (from 1) of a copy
ValueOk(g, p, big, v, k, rc) ==
  /\ Len(v) = Width(g, p)
  /\ CASE g = "int" -> IF big THEN Le(p.min, v[1]) /\ Le(v[1], p.max) ELSE v[1] >= D(p, "min", 1) /\ v[1] <= D(p, "max", ROWS)
       [] g = "int-gaps" -> GapOk(p, v[1])
       [] g = "int-range" -> /\ v[1] >= D(p, "min", 1)
                             /\ v[1] <= D(p, "max", ROWS)
                             /\ v[2] = (LET u == v[1] + D(p, "size", 100) - 1 IN IF u > D(p, "max", ROWS) THEN D(p, "max", ROWS) ELSE u)
       [] g = "int-range-seq" -> v = Chunk(p, (k - 1) % Chunks(p))
       [] g = "auto-inc" -> v[1] = D(p, "start", 0) + k * D(p, "step", 1)
       [] g = "str-fill-az" -> /\ Len(v[1]) = D(p, "len", 100)
                               /\ \A j \in 1..Len(v[1]) : v[1][j] \in 65..90 \cup 97..122
       [] g = "xid" -> Len(v[1]) = 20
       [] g = "client-id" -> \A j \in DOMAIN p.ids : v[j] = rc[Ids[p.ids[j]]]
       [] OTHER -> FALSE
\* values that must never come twice, from any copy
Unique(g, p) == g = "xid" \/ (g = "str-fill-az" /\ D(p, "len", 100) >= 20)
\* generators whose k-th value is determined
Sequential(g) == g \in {"int-range-seq", "auto-inc"}

\* All calls (sequences of values, one per caller) of one copy of a sequential
\* generator, in some order: none lost, none repeated, in order for each caller
AllCallsOk(g, p, calls) ==
  LET n == MapThenSumSet(LAMBDA c : Len(calls[c]), DOMAIN calls)
      all == UNION {{<<c, j>> : j \in DOMAIN calls[c]} : c \in DOMAIN calls}
      V(x) == calls[x[1]][x[2]]
  IN CASE g = "auto-inc" ->
            /\ {V(x)[1] : x \in all} = {D(p, "start", 0) + k * D(p, "step", 1) : k \in 1..n}
            /\ \A c \in DOMAIN calls : \A j \in 2..Len(calls[c]) : calls[c][j][1] > calls[c][j - 1][1]
       [] g = "int-range-seq" ->
            LET m == Chunks(p) IN
            /\ \A x \in all : LET j == (V(x)[1] - D(p, "begin", 1)) \div D(p, "size", 100) IN j \in 0..(m - 1) /\ V(x) = Chunk(p, j)
            /\ IF n <= m THEN {V(x) : x \in all} = {Chunk(p, j) : j \in 0..(n - 1)}
               ELSE \A j \in 0..(m - 1) : Cardinality({x \in all : V(x) = Chunk(p, j)}) = n \div m + (IF j < n % m THEN 1 ELSE 0)
            /\ n <= m => \A c \in DOMAIN calls : \A j \in 2..Len(calls[c]) : calls[c][j][1] > calls[c][j - 1][1]

\* Distribution of n values of one copy, cnt: a sequence of <<value, how often>>.
\* Bounds are so wide that chance does not reach them.
Within(cnt, vals, n) == \A v \in vals : LET c == MapThenSumSet(LAMBDA k : IF cnt[k][1][1] = v THEN cnt[k][2] ELSE 0, DOMAIN cnt)
                                            e == n \div Cardinality(vals)
                                        IN 2 * c >= e /\ 2 * c <= 3 * e
DistOk(g, p, cnt, n) ==
  /\ g # "str-fill-az" => \A k \in DOMAIN cnt : ValueOk(g, p, FALSE, cnt[k][1], 1, <<>>)
  /\ CASE g = "int" /\ D(p, "normal", FALSE) ->
            LET mean == D(p, "mean", (D(p, "min", 1) + D(p, "max", ROWS)) \div 2)
                w == D(p, "max", ROWS) - D(p, "min", 1)
                sum == MapThenSumSet(LAMBDA k : (cnt[k][1][1] - mean) * cnt[k][2], DOMAIN cnt)
            IN p.free \/ (8 * sum >= -((w + 8) * n) /\ 8 * sum <= (w + 8) * n)
       [] g = "int" -> Within(cnt, D(p, "min", 1)..D(p, "max", ROWS), n)
       [] g = "int-gaps" -> \E m \in GapN(p) : Len(cnt) = m /\ Within(cnt, {cnt[k][1][1] : k \in DOMAIN cnt}, n)
       [] g = "int-range" -> D(p, "min", 1)..(D(p, "max", ROWS) - D(p, "size", 100)) \subseteq {cnt[k][1][1] : k \in DOMAIN cnt}
       [] g = "str-fill-az" ->          \* letters
            /\ {cnt[k][1][1] : k \in DOMAIN cnt} = 65..90 \cup 97..122
            /\ Within(cnt, 65..90 \cup 97..122, n * D(p, "len", 100))
       [] OTHER -> TRUE
=============================================================================
