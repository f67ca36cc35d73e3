----------------------------- MODULE PurityTrace ----------------------------
(* Recorded calculations on shared inputs: the digests of all inputs after      *)
(* every one are those from the start, every result is that from fresh inputs   *)
(* ("fresh" events), and results returned before stay as they were.             *)
EXTENDS Purity, FixedPoint, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, first, table
vars == <<l, first, table>>
Tol(e, b) == (IF e \in {"rcwaprof", "genrcwa"} THEN 2000 ELSE 2) + Abs(b) \div 500000
Same(e, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(a[i]) : Near(a[i][j], b[i][j], Tol(e, b[i][j]))
Clauses(e) ==
  IF e.error # "" THEN {"completes"} ELSE
  CASE e.op = "fresh" -> Chk("values are finite", \A i \in 1..Len(e.res) : \A j \in 1..Len(e.res[i]) : Ok(e.res[i][j]))
    [] e.op = "calc" ->
        IF e.entry \notin DOMAIN table THEN {"history recorded completely"} ELSE
        UNION {Chk(k \o " are left as they were", e.dig[k] = first[k]) : k \in Kinds}
        \cup Chk("results returned before stay as they were", e.held)
        \cup Chk("result is that from fresh inputs", Same(e.entry, e.res, table[e.entry]))
    [] OTHER -> {}
TraceInit == l = 1 /\ first = <<>> /\ table = <<>>
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                /\ LET bad == Clauses(e) IN \A b \in bad : PrintT(<<"FAIL", l, b>>)
                /\ IF e.error # "" THEN UNCHANGED <<first, table>>
                   ELSE CASE e.op = "start" -> first' = <<>> /\ table' = <<>>
                     [] e.op = "begin" -> first' = e.dig /\ UNCHANGED table
                     [] e.op = "fresh" -> table' = (e.entry :> e.res) @@ table /\ UNCHANGED first
                     \* (one deviation is reported once)
                     [] e.op = "calc" -> first' = e.dig /\ UNCHANGED table
                     [] OTHER -> UNCHANGED <<first, table>>
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
