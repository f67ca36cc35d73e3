------------------------------- MODULE MCCrash ------------------------------
(* The store at the level of single file operations, with a crash at any of  *)
(* them. A file is absent (0), torn (-1) or holds the result of a class.     *)
(* After a first, uninterrupted request, a second one is run and may be      *)
(* killed; then it is repeated (same), or repeated without overwriting       *)
(* (cont). The file-level protocol is the one of the code: matrices are      *)
(* removed before new ones are saved, written RT first, profile last; lookup *)
(* tables are written in place.                                              *)
EXTENDS Store, TLC, Json
CONSTANTS Meth, RemoveFirst, EmitOn
VARIABLES f,        \* files: set of [k, c], absent if not in the set
          todo,     \* macro steps still to do in this run
          ops,      \* file operations of the current macro step still to do
          phase,    \* "first" "second" "again" "end"
          err,      \* the current run failed
          req, pre, had, mode
vars == <<f, todo, ops, phase, err, req, pre, had, mode>>
Reqs == [p : {"main"}, v : {1, 2}, prof : BOOLEAN, ow : BOOLEAN]
Macro(r) == (IF Meth = "mat" THEN <<>> ELSE <<[t |-> "tab", i |-> 1, s |-> "table"], [t |-> "tab", i |-> 2, s |-> "table"]>>)
            \o (IF Meth = "rts" THEN <<>> ELSE <<[t |-> "mat", i |-> 1, s |-> "front"], [t |-> "mat", i |-> 1, s |-> "rear"], [t |-> "mat", i |-> 2, s |-> "front"]>>)
K(r, m, q) == Key(r.p, IF m.t = "tab" THEN TabName(Meth, r, m.i) ELSE Names(r.p)[m.i], m.s, q)
Is(k) == Get(f, k) # 0
Torn(k) == Get(f, k) = -1
Init == /\ f = {} /\ ops = <<>> /\ phase \in {"first", "second"} /\ err = FALSE  \* "second": there was nothing before
        /\ pre \in Reqs /\ pre.v = 1 /\ ~pre.ow /\ req \in Reqs /\ mode \in {"same", "cont"}
        /\ (phase = "second" => ~pre.prof) /\ (mode = "cont" => req.ow)    \* otherwise the same as another case
        /\ todo = Macro(IF phase = "first" THEN pre ELSE req) /\ had = (phase = "first")
Cur == IF phase = "first" THEN pre ELSE IF phase = "again" /\ mode = "cont" THEN [req EXCEPT !.ow = FALSE] ELSE req
W(k, c) == <<[op |-> "w1", k |-> k, c |-> c], [op |-> "w2", k |-> k, c |-> c]>>
Rm(k) == <<[op |-> "rm", k |-> k, c |-> 0]>>
\* start of a macro step: look at the files, load or calculate
Start == /\ phase # "end" /\ ops = <<>> /\ todo # <<>> /\ ~err
  /\ todo' = Tail(todo) /\ UNCHANGED <<f, phase, req, pre, had, mode>>
  /\ LET m == Head(todo)  r == Cur IN
     IF m.t = "tab" THEN
       LET k == K(r, m, "opt")  kc == K(r, m, "coef") IN
       IF ~r.ow /\ Is(k) /\ Torn(k) THEN err' = TRUE /\ UNCHANGED ops
       ELSE IF ~r.ow /\ Is(k) /\ (r.prof => Is(kc)) THEN err' = FALSE /\ UNCHANGED ops
       ELSE /\ err' = FALSE    \* one file holds both parts
            /\ ops' = <<[op |-> "w1", k |-> k, c |-> 0]>> \o <<[op |-> "tw", k |-> k, c |-> Class(m.i, r.v)]>>
     ELSE
       LET kr == K(r, m, "RT")  ka == K(r, m, "A")  kp == K(r, m, "prof")
           have == ~r.ow /\ Is(kr) /\ Is(ka)
           kt == Key(r.p, Names(r.p)[m.i], "table", "opt")
           c == IF Meth = "mat" THEN Class(m.i, r.v) ELSE Get(f, kt)
       IN IF have /\ (Torn(kr) \/ Torn(ka) \/ (r.prof /\ Torn(kp))) THEN err' = TRUE /\ UNCHANGED ops
          ELSE IF have /\ (r.prof => Is(kp)) THEN err' = FALSE /\ UNCHANGED ops
          ELSE /\ err' = FALSE
               /\ ops' = (IF RemoveFirst THEN Rm(kp) \o Rm(ka) \o Rm(kr) ELSE <<>>) \o W(kr, c) \o W(ka, c) \o (IF r.prof THEN W(kp, c) ELSE <<>>)
Op == /\ ops # <<>> /\ ops' = Tail(ops)
      /\ LET o == Head(ops) IN
         f' = CASE o.op = "rm" -> Put(f, o.k, 0)
                [] o.op = "w1" -> Put(Put(f, o.k, -1), <<o.k[1], o.k[2], o.k[3], o.k[4], "coef">>, 0)
                [] o.op = "w2" -> Put(f, o.k, o.c)
                [] OTHER -> Put(Put(f, o.k, o.c), <<o.k[1], o.k[2], o.k[3], o.k[4], "coef">>, IF Cur.prof THEN o.c ELSE 0)
      /\ UNCHANGED <<todo, phase, err, req, pre, had, mode>>
\* the run ends (or fails), or is killed
Finish == /\ phase # "end" /\ ((ops = <<>> /\ todo = <<>>) \/ err)
          /\ phase' = (IF phase = "first" THEN "second" ELSE "end")
          /\ todo' = (IF phase = "first" THEN Macro(req) ELSE <<>>) /\ UNCHANGED <<f, ops, err, req, pre, had, mode>>
Crash == /\ phase = "second" /\ phase' = "again" /\ ops' = <<>> /\ todo' = Macro(req) /\ err' = FALSE
         /\ UNCHANGED <<f, req, pre, had, mode>>
Next == Start \/ Op \/ Finish \/ Crash
Spec == Init /\ [][Next]_vars
Done == phase = "end" /\ ~err
Want == Process(IF had THEN Process({}, Meth, pre) ELSE {}, Meth, req)
Emit == (EmitOn /\ ops = <<>> /\ todo = Macro(IF had THEN pre ELSE req) /\ phase = (IF had THEN "first" ELSE "second") /\ ~err)
        => PrintT(<<"BEH", ToJson([pre |-> pre, req |-> req, first |-> had, mode |-> mode])>>)
\* the repeated run gives what an uninterrupted run gives, or fails
Recovered == (Done /\ mode = "same") => f = Want
\* repeated without overwriting: nothing torn, every item from one calculation
NotMixed == (Done /\ mode = "cont") => (\A x \in f : x.c # -1) /\ Consistent(f)
=============================================================================
