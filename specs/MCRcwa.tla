-------------------------------- MODULE MCRcwa ------------------------------
(* The object as implemented: it keeps the optical constants for the last      *)
(* wavelengths (oc) and the last result (res), to be refreshed when needed.    *)
(* Mode "ok" is the design; the others are ways of getting it wrong, which     *)
(* must be noticed (they show that the invariant is not vacuous).              *)
EXTENDS RcwaSession, TLC, Json
CONSTANTS MaxLen, Opts, Mode, EmitOn
VARIABLES obj, hist, out
vars == <<obj, hist, out>>
Wl(o) == IF o = 2 THEN 2 ELSE 1          \* option sets 1 and 3 have the same wavelengths
None == [w |-> 0, z |-> 0, g |-> 0, o |-> 0, kind |-> "none"]
Fresh == [p |-> New, made |-> New, oc |-> 1, res |-> None, resoc |-> 1]
Init == obj = <<Fresh>> /\ hist = <<>> /\ out = [got |-> None, oc |-> 1, want |-> None]
Log(op, i, o) == Len(hist) < MaxLen /\ hist' = Append(hist, [op |-> op, i |-> i, o |-> o])
Edit(i, op) == /\ Log(op, i, 0) /\ UNCHANGED out
               /\ obj' = IF Mode = "shared" /\ op = "geom" THEN [j \in DOMAIN obj |-> [obj[j] EXCEPT !.p = Edited(@, op)]]
                         ELSE [obj EXCEPT ![i].p = Edited(@, op)]
Twin == Len(obj) = 1 /\ Log("twin", 2, 0) /\ obj' = Append(obj, Fresh) /\ UNCHANGED out
\* optical constants are refreshed when the wavelengths are others
Ready(a, o) == IF a.oc = Wl(o) \/ Mode = "stale" THEN a
               ELSE [a EXCEPT !.oc = Wl(o), !.p = IF Mode = "resetw" THEN [@ EXCEPT !.w = a.made.w] ELSE @]
Real == [i \in DOMAIN obj |-> LET e == SelectSeq(hist, LAMBDA h : h.i = i) IN   \* what the edits so far amount to
           LET n(op) == Len(SelectSeq(e, LAMBDA h : h.op = op)) % 2 IN [w |-> 1 + n("widths"), z |-> 1 + n("size"), g |-> 1 + n("geom")]]
Look(i, kind, o) ==
  LET a == Ready(obj[i], o)
      reuse == kind = "prof" /\ Mode = "reuse" /\ obj[i].res # None
      r == IF reuse THEN [obj[i].res EXCEPT !.kind = "prof"] ELSE Want(a.p, kind, o) IN
  /\ Log(kind, i, o)
  /\ obj' = [obj EXCEPT ![i] = [a EXCEPT !.res = r]]
  /\ out' = [got |-> r, oc |-> a.oc, want |-> Want(Real[i], kind, o)]
Next == \/ \E i \in DOMAIN obj, op \in Edits : Edit(i, op)
        \/ \E i \in DOMAIN obj, k \in Looks, o \in Opts : (k = "fields" => o # 3) /\ Look(i, k, o)
        \/ Twin
AsFresh == out.got = out.want /\ (out.want # None => out.oc = Wl(out.want.o))
Physical == \A i \in DOMAIN obj : obj[i].p = Real[i]
Emit == (EmitOn /\ Len(hist) = MaxLen /\ hist[MaxLen].op \in Looks) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
