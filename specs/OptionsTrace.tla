----------------------------- MODULE OptionsTrace ---------------------------
(* Recorded uses of options objects against Options. "ref" events give the     *)
(* results for every numbered set of wavelengths, from fresh options with the   *)
(* wavelengths under the singular name; "start" gives the digest of all other   *)
(* fields of fresh default options.                                            *)
EXTENDS Options, FixedPoint, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, objs, table, dflt
vars == <<l, objs, table, dflt>>
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(a[i]) : Near(a[i][j], b[i][j], 1)
Clauses(e) ==
  IF e.op \in {"sing", "plu", "nest", "poke", "calc", "look"} /\ ~(e.i \in 1..Len(objs)) THEN {"history recorded completely"}
  ELSE IF e.op = "bad" THEN Chk("invalid " \o e.what \o " is rejected", MustReject(e) => e.error # "")
                      \cup Chk("valid " \o e.what \o " is accepted", ~MustReject(e) => e.error = "")
  ELSE IF e.error # "" THEN {"completes"} ELSE
  CASE e.op = "ref" -> Chk("values are finite", \A i \in 1..Len(e.res) : \A j \in 1..Len(e.res[i]) : Ok(e.res[i][j]))
    [] e.op = "calc" -> LET k == <<e.entry, Effective(objs[e.i])>> IN
         IF k \notin DOMAIN table THEN {"history recorded completely"} ELSE
         Chk("wavelengths listed are those which were given", e.wl = table[k].wl)
         \cup Chk("same results in whatever form the options are given", Same(e.res, table[k].res))
    [] e.op = "look" -> Chk("wavelengths of default options are not shared", CanPoke(objs[e.i]) => e.poked = objs[e.i].poked)
         \cup Chk("nested default options are not shared", e.nest = objs[e.i].nest)
         \cup Chk("defaults of other options are those of a fresh object", e.rest = dflt)
    [] OTHER -> {}
TraceInit == l = 1 /\ objs = <<>> /\ table = <<>> /\ dflt = ""
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                /\ LET bad == Clauses(e) IN \A b \in bad : PrintT(<<"FAIL", l, b>>)
                /\ IF e.error # "" THEN UNCHANGED <<objs, table, dflt>>
                   ELSE CASE e.op = "start" -> table' = <<>> /\ dflt' = e.rest /\ objs' = <<>>
                     [] e.op = "ref" -> table' = (<<e.entry, e.v>> :> [wl |-> e.wl, res |-> e.res]) @@ table /\ UNCHANGED <<objs, dflt>>
                     [] e.op = "begin" -> objs' = <<>> /\ UNCHANGED <<table, dflt>>
                     [] e.op = "new" -> objs' = Append(objs, New(e.form)) /\ UNCHANGED <<table, dflt>>
                     [] e.op \in {"sing", "plu", "nest", "poke"} /\ e.i \in 1..Len(objs) ->
                          objs' = [objs EXCEPT ![e.i] = Apply(@, e.op, e.v)] /\ UNCHANGED <<table, dflt>>
                     [] OTHER -> UNCHANGED <<objs, table, dflt>>
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
