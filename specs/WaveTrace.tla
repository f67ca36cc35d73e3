------------------------------ MODULE WaveTrace -----------------------------
(* Recorded calculations for requests of several wavelengths, against the      *)
(* results for each wavelength alone ("alone" events, from fresh objects, in    *)
(* the same group): equal up to rounding, or statistically where rays are       *)
(* random.                                                                     *)
EXTENDS Wavelengths, FixedPoint, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, table
vars == <<l, table>>
\* (the wave-optical solver takes profiles from differences over 1e-9 nm; recorded to 1e-4)
Tol(entry, b) == (IF entry \in {"rcwaprof", "genrcwa"} THEN 2000 ELSE 2) + Abs(b) \div 500000
Exact(entry, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], Tol(entry, b[i]))
\* six standard deviations of the difference of two fractions found with n rays each (in thousandths)
Milli(x) == LET y == (x + 500) \div 1000 IN IF y < 0 THEN 0 ELSE IF y > 1000 THEN 1000 ELSE y
Fraction(a, b, n) == LET x == Milli(a)  y == Milli(b)  d == Abs(x - y)  p == (x + y) \div 2 IN
                     Ok(a) /\ Ok(b) /\ d * d * n <= 72 * p * (1000 - p) + 90000
Statistical(a, b, n) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Fraction(a[i], b[i], n)
Clauses(e) ==
  IF e.error # "" THEN {"completes"} ELSE
  CASE e.op = "alone" -> Chk("values are finite", \A j \in 1..Len(e.res) : Ok(e.res[j]))
    [] e.op = "calc" ->
        IF \E i \in 1..Len(e.req) : e.req[i] \notin DOMAIN table THEN {"history recorded completely"} ELSE
        Chk("one result for every wavelength", Len(e.res) = Len(e.req))
        \cup Chk("wavelengths are listed in the order requested", e.wl # <<>> => e.wl = e.asked)
        \cup Chk("result for a wavelength is that for it alone",
                 Len(e.res) = Len(e.req) => \A i \in 1..Len(e.req) :
                   LET ref == table[e.req[i]] IN
                   IF e.rays = 0 THEN Exact(e.entry, e.res[i], ref) ELSE Statistical(e.res[i], ref, e.rays))
    [] OTHER -> {}
TraceInit == l = 1 /\ table = <<>>
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                /\ LET bad == Clauses(e) IN \A b \in bad : PrintT(<<"FAIL", l, b>>)
                /\ table' = IF e.error # "" THEN table
                            ELSE CASE e.op = "start" -> <<>> [] e.op = "alone" -> (e.w :> e.res) @@ table [] OTHER -> table
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
