----------------------------- MODULE CrashTrace -----------------------------
(* Recorded interruptions against Store. "whole": an uninterrupted request;  *)
(* "crash": the same request, ended at one of its file operations (kills > 1 *)
(* if the repetition was ended too), and repeated. The files of all places   *)
(* are recorded with the classes their content may be.                       *)
EXTENDS Store, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chk(name, cond) == IF cond THEN {} ELSE {name}
VARIABLE l
KeyOf(f) == <<f.k[1], f.k[2], f.k[3], f.k[4], f.k[5]>>
May(f) == {f.c[j] : j \in 1..Len(f.c)}
Own(e) == {i \in 1..Len(e.files) : e.files[i].k[1] = 1 /\ e.files[i].k[2] = 1
                                    /\ \E n \in {Names("main")[1], Names("main")[2], TabName(e.m, e.req, 1), TabName(e.m, e.req, 2)} : e.files[i].k[3] = n}
Seen(e) == {[k |-> KeyOf(e.files[i]), c |-> May(e.files[i])] : i \in Own(e)}
Before(e) == IF e.first THEN Process({}, e.m, e.pre) ELSE {}
\* what other requests left there: another surface (same project), another project, another location
Other(m) == [p : {"names"}, v : {2}, prof : {FALSE}, ow : {FALSE}]
OthersKept(e) == /\ \A i \in 1..Len(e.files) : i \notin Own(e) => e.files[i].same
                 /\ Cardinality({i \in 1..Len(e.files) : i \notin Own(e)}) = 3 * Cardinality(Process({}, e.m, CHOOSE r \in Other(e.m) : TRUE))
Exactly(e) == LET want == Process(Before(e), e.m, e.req)  seen == Seen(e) IN
  /\ {x.k : x \in want} = {x.k : x \in seen}
  /\ \A x \in seen : \A y \in want : x.k = y.k => y.c \in x.c
\* every part of an item may come from one and the same calculation
OneOrigin(e) == LET seen == Seen(e) IN
  \A x \in seen : \E c \in x.c : \A y \in seen : (y.k[3] = x.k[3] /\ y.k[4] = x.k[4]) => c \in y.c
Clauses(e) ==
  IF e.error # "" THEN {"completes"} ELSE
  IF e.op = "whole" THEN Chk("files are written in the chosen folder only", e.ops > 0 \/ (~e.req.ow /\ e.first))
    \cup Chk("an uninterrupted request leaves the files it should", Exactly(e)) \cup Chk("other files are unaffected", OthersKept(e))
  ELSE
  Chk("the repeated request ends, with a result or an error", e.outcome \in {"ok", "error", "unreadable"})
  \cup Chk("after an interruption, files a successful repetition leaves can be read", e.outcome # "unreadable")
  \cup Chk("other files are unaffected by an interruption", e.outcome \in {"ok", "error"} => OthersKept(e))
  \cup (IF e.outcome # "ok" THEN {} ELSE
        IF e.mode = "same" THEN
          Chk("the repeated request leaves the files of an uninterrupted one", Exactly(e))
          \cup Chk("the repeated request gives the results of an uninterrupted one", e.rat)
        ELSE Chk("results of the interrupted calculation and of an earlier one are not combined", OneOrigin(e))
             \cup Chk("what was requested is there", Served({[k |-> x.k, c |-> 1] : x \in Seen(e)}, e.m, e.req)))
  \* overwriting does not depend on what is there
  \cup Chk("a request with overwriting recovers from an interruption", e.req.ow /\ e.mode = "same" => e.outcome = "ok")
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET bad == Clauses(Trace[l]) IN \A b \in bad : PrintT(<<"FAIL", l, b>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
