-------------------------------- MODULE Histo -------------------------------
(***************************************************************************)
(* Statistics values and what reporters print of them.  A value is just    *)
(* the events recorded into it: for each type how often each time, and how *)
(* often each error code.  Everything observable follows from that.        *)
(*                                                                         *)
(* Times are pairs <<seconds, microseconds>>.  Hi[i+1] is the upper limit  *)
(* 10us * 10^(i/50) of bucket i (rounded up), Mid the midpoint to the one  *)
(* before.  Types: 1 read, 2 write, 3 commit, 4 everything.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt
CONSTANTS Hi, Mid

NB == Len(Hi)
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Le(a, b) == a = b \/ Lt(a, b)
Zero == <<0, 0>>
Empty == [ev |-> [t \in 1..4 |-> <<>>], er |-> <<>>]

\* bags: functions to counts
Inc(f, d, n) == IF d \in DOMAIN f THEN [f EXCEPT ![d] = @ + n] ELSE (d :> n) @@ f
Get(f, d) == IF d \in DOMAIN f THEN f[d] ELSE 0
Add(f, g) == [d \in DOMAIN f \cup DOMAIN g |-> Get(f, d) + Get(g, d)]
Sum(f) == MapThenSumSet(LAMBDA d : f[d], DOMAIN f)

\* n events of type t that took d
Record(x, t, d, n) == [x EXCEPT !.ev = [u \in 1..4 |-> IF u = t \/ u = 4 THEN Inc(x.ev[u], d, n) ELSE x.ev[u]]]
Error(x, c, n) == [x EXCEPT !.er = Inc(@, c, n)]
Combine(x, y) == [ev |-> [t \in 1..4 |-> Add(x.ev[t], y.ev[t])], er |-> Add(x.er, y.er)]

MinOf(T) == CHOOSE m \in T : \A o \in T : Le(m, o)
MaxOf(T) == CHOOSE m \in T : \A o \in T : Le(o, m)

\* the bucket of a time; at an exact power of ten it may be either side of the limit
RECURSIVE Search(_, _, _)
Search(d, lo, hi) == IF lo = hi THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN IF Lt(d, Hi[m + 1]) THEN Search(d, lo, m) ELSE Search(d, m + 1, hi)
MaxB(d) == IF ~Lt(d, Hi[NB]) THEN NB - 1 ELSE Search(d, 0, NB - 1)
MinB(d) == LET b == MaxB(d) IN IF b > 0 /\ d = Hi[b] /\ (b - 1) % 50 = 0 THEN b - 1 ELSE b

\* for one type: least and greatest possible number of events up to each relevant bucket
Cum(f, extra) ==
  LET mn == TLCEval([d \in DOMAIN f |-> MinB(d)])
      mx == TLCEval([d \in DOMAIN f |-> MaxB(d)])
      cut == {mn[d] : d \in DOMAIN f} \cup {mx[d] : d \in DOMAIN f} \cup extra
  IN TLCEval([i \in cut |-> [least |-> MapThenSumSet(LAMBDA d : f[d], {d \in DOMAIN f : mx[d] <= i}),
                             most |-> MapThenSumSet(LAMBDA d : f[d], {d \in DOMAIN f : mn[d] <= i})]])

\* observed buckets b (sequence of <<bucket, count>>): as many events below every limit as there have to be
BucketsOk(f, b) ==
  LET c == Cum(f, {b[k][1] : k \in DOMAIN b} \cup {NB - 1})
  IN \A i \in DOMAIN c : LET n == MapThenSumSet(LAMBDA k : b[k][2], {k \in DOMAIN b : b[k][1] <= i})
                         IN n >= c[i].least /\ n <= c[i].most

StateOk(x, o) ==
  /\ \A t \in 1..4 :
       LET f == x.ev[t] T == DOMAIN f IN
       /\ o.n[t] = Sum(f)
       /\ IF T = {} THEN o.min[t] = Zero /\ o.max[t] = Zero ELSE o.min[t] = MinOf(T) /\ o.max[t] = MaxOf(T)
       /\ BucketsOk(f, o.b[t])
  /\ {<<o.err[k][1], o.err[k][2]>> : k \in DOMAIN o.err} = {<<c, x.er[c]>> : c \in DOMAIN x.er}

\* percentile p (in thousandths of a percent) is v: the limit of the bucket of the event
\* of that rank, or the midpoint
Near(v, w) == v = w \/ <<v[1], v[2] + 1>> = w \/ <<w[1], w[2] + 1>> = v
              \/ (v[2] = 999999 /\ <<v[1] + 1, 0>> = w) \/ (w[2] = 999999 /\ <<w[1] + 1, 0>> = v)
PctValue(i, v) == Near(v, Hi[i + 1]) \/ (i > 0 /\ Near(v, Mid[i + 1]))
PctOk(c, n, p, v) ==
  LET r0 == (p * n + 99999) \div 100000
      ranks == {r0} \cup (IF (p * n) % 100000 = 0 THEN {r0 + 1} ELSE {})
      Holds(i, r) == /\ c[i].most >= r
                     /\ \A j \in DOMAIN c : j < i => c[j].least < r
  IN IF n = 0 THEN v = Zero
     ELSE \/ r0 = 0 /\ PctValue(0, v)
          \/ \E i \in DOMAIN c : PctValue(i, v) /\ \E r \in ranks : Holds(i, r)
PctsOk(f, ps, vs) ==
  LET c == Cum(f, {}) n == Sum(f) IN
  /\ Len(ps) = Len(vs)
  /\ \A k \in DOMAIN ps : PctOk(c, n, ps[k], vs[k])
  /\ n > 0 => \A j, k \in DOMAIN ps : ps[j] <= ps[k] => Le(vs[j], vs[k])

(* ---- a line of a report --------------------------------------------------- *)
\* in: [host, clients, interval, sec2, rt2 (halves of seconds), x (a value)]
RECURSIVE Join(_)
Join(xs) == IF Len(xs) = 1 THEN xs[1] ELSE Combine(xs[1], Join(Tail(xs)))
RECURSIVE SumClients(_)
SumClients(ins) == IF ins = <<>> THEN 0 ELSE ins[1].clients + SumClients(Tail(ins))
LineOk(l, ins, ps, hosts) ==
  LET x == TLCEval(Join([k \in DOMAIN ins |-> ins[k].x])) IN
  /\ l.interval = ins[1].interval /\ l.sec2 = ins[1].sec2 /\ l.rt2 = ins[1].rt2
  /\ l.clients = SumClients(ins)
  /\ l.errors = Sum(x.er)
  /\ l.host \in hosts
  /\ \A t \in 1..4 :
       LET f == x.ev[t] T == DOMAIN f IN
       /\ l.qps[t] = (2 * Sum(f)) \div ins[1].sec2
       /\ IF T = {} THEN l.min[t] = Zero /\ l.max[t] = Zero ELSE l.min[t] = MinOf(T) /\ l.max[t] = MaxOf(T)
       /\ PctsOk(f, ps, l.p[t])
Cat(ps, pre) == [k \in DOMAIN ps |-> pre \o ps[k]]
Header(names) == <<"interval", "duration", "runtime", "clients", "QPS", "min">> \o names \o <<"max", "r_QPS", "r_min">> \o Cat(names, "r_")
                 \o <<"r_max", "w_QPS", "w_min">> \o Cat(names, "w_") \o <<"w_max", "TPS", "c_min">> \o Cat(names, "c_")
                 \o <<"c_max", "errors", "compute">>
=============================================================================
