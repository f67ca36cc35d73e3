----------------------------- MODULE StoreTrace -----------------------------
(* Recorded request histories against Store. After every request all files   *)
(* of all places are recorded: key, class of the content (0 if it is no      *)
(* known result) and whether the file is byte for byte the one from before.  *)
EXTENDS Store, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chk(name, cond) == IF cond THEN {} ELSE {name}
VARIABLES l, st
KeyOf(f) == <<f.k[1], f.k[2], f.k[3], f.k[4], f.k[5]>>
\* the classes a recorded content may be (of the results known, exact for deterministic methods)
May(f) == {f.c[j] : j \in 1..Len(f.c)}
Seen(e) == {[k |-> KeyOf(e.files[i]), c |-> May(e.files[i])] : i \in 1..Len(e.files)}
\* (name, side) pairs the request has to calculate
Recomputed(s, m, r) ==
  LET t == Tables(s, m, r)
      tabs == {TabName(m, r, i) : i \in {i \in 1..2 : m # "mat" /\ (r.ow \/ Get(s, Key(r.p, TabName(m, r, i), "table", "opt")) = 0
                                                      \/ (r.prof /\ Get(s, Key(r.p, TabName(m, r, i), "table", "coef")) = 0))}}
      items == IF m = "rts" THEN {} ELSE
               {x \in {<<Names(r.p)[1], "front">>, <<Names(r.p)[1], "rear">>, <<Names(r.p)[2], "front">>} : r.ow \/ ~Present(s, r.p, x[1], x[2], r.prof)}
  IN {<<n, "table">> : n \in tabs} \cup items
Clauses(e) ==
  IF e.error # "" THEN {"completes"} ELSE
  IF e.op = "start" THEN Chk("starts empty", e.files = <<>>) ELSE
  IF e.op = "reread" THEN   \* results read back are the values that were computed
     Chk("values read back are the values computed", e.equal) ELSE
  LET want == st'  seen == Seen(e)  rec == Recomputed(st, e.m, e.r) IN
  Chk("stored files are exactly those requested so far", {x.k : x \in want} = {x.k : x \in seen})
  \cup Chk("every stored file holds the result of the right inputs", \A x \in seen : \A y \in want : x.k = y.k => y.c \in x.c)
  \cup Chk("results which are reused, or belong to other places, are left as they were", \A i \in 1..Len(e.files) :
        LET k == KeyOf(e.files[i]) IN
        (Get(st, k) # 0 /\ ~(k[1] = Loc(e.r.p) /\ k[2] = Proj(e.r.p) /\ <<k[3], k[4]>> \in rec)) => e.files[i].same)
  \cup Chk("results are those of the stored calculation", e.rat)
TraceInit == l = 1 /\ st = {}
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                /\ st' = IF e.error # "" \/ e.op = "reread" THEN st ELSE IF e.op = "start" THEN {} ELSE Process(st, e.m, e.r)
                /\ LET bad == Clauses(e) IN \A b \in bad : PrintT(<<"FAIL", l, b>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
