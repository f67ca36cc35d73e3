---------------------------- MODULE SummaryTrace ----------------------------
EXTENDS Summary, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Mid(e, t) == IF t < e.d.n THEN (e.edges[t + 1] + e.edges[t + 2]) \div 2
             ELSE PI - (e.edges[2 * e.d.n - t] + e.edges[2 * e.d.n - t + 1]) \div 2
\* groups with the same polar bin, computed once
Clauses(e) ==
  IF e.error # "" THEN {"completes"} ELSE
  LET d == e.d  n == d.n  T == TLCEval(Table(d))  N == NIn(d)
      off == IF e.front THEN 0 ELSE n
      cs == TLCEval([i \in 1..n |-> {c \in 1..N : T[IF e.front THEN c ELSE N + c][1] = off + i - 1}])
      rs == TLCEval([o \in 1..(2 * n) |-> {r \in 1..(2 * N) : T[r][1] = o - 1}])
  IN IF e.kind = "RT" THEN
     (IF Len(e.sum) # 2 * n \/ \E o \in 1..Len(e.sum) : Len(e.sum[o]) # n THEN {"shape of the summary"} ELSE
      Chk("power into each outgoing polar bin, averaged over the incidence azimuths", \A o \in 1..(2 * n), i \in 1..n :
          Near(e.sum[o][i], RDiv(SumBy(cs[i], LAMBDA c : SumBy(rs[o], LAMBDA r : e.M[c][r])), Cardinality(cs[i])), 4))
      \cup Chk("total per incidence polar angle is the average of the column totals", \A i \in 1..n :
          Near(Sum([o \in 1..(2 * n) |-> e.sum[o][i]]), RDiv(SumBy(cs[i], LAMBDA c : Sum(e.M[c])), Cardinality(cs[i])), 10))
      \cup Chk("polar angles of the summary", /\ Len(e.out) = 2 * n /\ Len(e.in) = n
               /\ \A o \in 1..(2 * n) : Near(e.out[o], Mid(e, o - 1), 5)
               /\ \A i \in 1..n : Near(e.in[i], Mid(e, off + i - 1), 5)))
     ELSE
     (IF Len(e.sum) # e.nl \/ \E o \in 1..Len(e.sum) : Len(e.sum[o]) # n THEN {"shape of the absorption summary"} ELSE
      Chk("absorption per layer summed over the incidence azimuths", \A y \in 1..e.nl, i \in 1..n :
          Near(e.sum[y][i], SumBy(cs[i], LAMBDA c : e.M[c][y]), 4)))
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET bad == Clauses(Trace[l]) IN \A b \in bad : PrintT(<<"FAIL", l, b>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
