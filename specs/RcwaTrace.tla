------------------------------ MODULE RcwaTrace -----------------------------
(* Recorded sessions with real structure objects against RcwaSession: every    *)
(* result equals that of a fresh object with the same structure and options    *)
(* ("fresh" events, recorded in the same group), and results which were        *)
(* returned before stay as they were.                                          *)
EXTENDS RcwaSession, FixedPoint, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, objs, table, outs
vars == <<l, objs, table, outs>>
Same(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol + Abs(b[i]) \div 500000)
\* (the solver takes profiles, recorded per micrometre, from differences of power over a distance of 1e-9 nm)
Tol(op) == IF op = "prof" THEN 2000 ELSE 1
KeyOf(e) == Want([w |-> e.w, z |-> e.z, g |-> e.g], e.what, e.o)
Clauses(e) ==
  IF e.error # "" THEN {"completes"} ELSE
  CASE e.op = "fresh" -> Chk("recorded values are finite", \A i \in 1..Len(e.res) : Ok(e.res[i]))
    [] e.op \in Looks ->
        LET k == Want(objs[e.i], e.op, e.o)   c == Want(objs[e.i], "calc", e.o) IN
        IF k \notin DOMAIN table \/ c \notin DOMAIN table THEN {"session recorded completely"} ELSE
        Chk(CASE e.op = "calc" -> "calculation returns what a fresh object returns"
              [] e.op = "prof" -> "profile is that of a fresh object"
              [] OTHER -> "fields and permittivity are those of a fresh object", Same(e.res, table[k], Tol(e.op)))
        \cup Chk("profile calculation returns the reflection, transmission and absorption of these options",
                 e.op = "prof" => Same(e.rta, table[c], 1))
    [] e.op = "end" -> Chk("returned results are not changed afterwards",
                           Len(e.again) = Len(outs) /\ \A i \in 1..Len(outs) : e.again[i] = outs[i])
    [] OTHER -> {}
TraceInit == l = 1 /\ objs = <<>> /\ table = <<>> /\ outs = <<>>
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                /\ LET bad == Clauses(e) IN \A b \in bad : PrintT(<<"FAIL", l, b>>)
                /\ IF e.error # "" THEN UNCHANGED <<objs, table, outs>>
                   ELSE CASE e.op = "start" -> objs' = <<New>> /\ table' = <<>> /\ outs' = <<>>
                     [] e.op = "fresh" -> table' = (KeyOf(e) :> e.res) @@ table /\ UNCHANGED <<objs, outs>>
                     [] e.op = "twin" -> objs' = Append(objs, New) /\ UNCHANGED <<table, outs>>
                     [] e.op \in Edits -> objs' = [objs EXCEPT ![e.i] = Edited(@, e.op)] /\ UNCHANGED <<table, outs>>
                     [] e.op \in Looks -> outs' = Append(outs, e.res) /\ UNCHANGED <<objs, table>>
                     [] OTHER -> UNCHANGED <<objs, table, outs>>
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
