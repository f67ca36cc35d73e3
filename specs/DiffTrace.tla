------------------------------ MODULE DiffTrace -----------------------------
EXTENDS Diffraction, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clauses(e) ==
  IF e.error # "" THEN {"completes"} ELSE
  LET g == e.g  os == e.os  qs == TLCEval(Values(g, os))
      \* which exact group an output entry stands for
      idx == TLCEval([i \in 1..Len(e.k) |-> {q \in qs : Near(e.k[i], KLen(g, q), 30)}])
  IN IF Len(e.reps) # Len(e.k) \/ \E i \in 1..Len(e.k) : Cardinality(idx[i]) # 1 THEN {"every group is one wavevector length of the orders"} ELSE
     LET at == TLCEval([i \in 1..Len(e.k) |-> CHOOSE q \in idx[i] : TRUE]) IN
     Chk("one group per wavevector length", Len(e.k) = Cardinality(qs) /\ {at[i] : i \in 1..Len(e.k)} = qs)
     \cup Chk("number of orders per group", \A i \in 1..Len(e.k) : e.reps[i] = Cardinality(Members(g, os, at[i])))
     \cup (IF ~e.has THEN {} ELSE
           Chk("power of a group is the sum over its orders", /\ Len(e.sum) = Len(e.per)
               /\ \A w \in 1..Len(e.per) : Len(e.sum[w]) = Len(e.k) /\ \A i \in 1..Len(e.k) :
                  Near(e.sum[w][i], FoldLeft(LAMBDA a, j : Add(a, e.per[w][j]), 0, SetToSeq(Members(g, os, at[i]))), 3))
           \cup Chk("number of different powers in a group", Len(e.deg) = Len(e.k) /\ \A i \in 1..Len(e.k) :
                  e.deg[i] = Cardinality({e.per[1][j] : j \in Members(g, os, at[i])})))
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET bad == Clauses(Trace[l]) IN \A b \in bad : PrintT(<<"FAIL", l, b>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
