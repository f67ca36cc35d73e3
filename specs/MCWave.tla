------------------------------- MODULE MCWave -------------------------------
(* A pool of workers calculates the wavelengths of a request in any            *)
(* interleaving; the same objects serve several requests. Wrong                *)
(* implementations: results collected in the order in which workers finish,     *)
(* sorted, the optical constants of the wavelength which was started last, or   *)
(* constants remembered by position from an earlier request.                   *)
EXTENDS Wavelengths, FiniteSets, TLC, Json
CONSTANTS W, MaxLen, MaxReq, Workers, Mode, EmitOn
VARIABLES hist, req, par, pending, busy, out, last, mem, done
vars == <<hist, req, par, pending, busy, out, last, mem, done>>
None == <<>>
Init == hist = <<>> /\ req = None /\ par = FALSE /\ pending = <<>> /\ busy = {} /\ out = <<>> /\ last = 0 /\ mem = None /\ done = TRUE
Ask == /\ done /\ Len(hist) < MaxReq
       /\ \E r \in Requests(W, MaxLen), p \in BOOLEAN :
            /\ req' = r /\ par' = p /\ hist' = Append(hist, [req |-> r, par |-> p])
            /\ pending' = [i \in DOMAIN r |-> i] /\ out' = IF Mode \in {"append", "sorted"} THEN <<>> ELSE [i \in DOMAIN r |-> 0]
            /\ mem' = IF Mode = "memory" /\ mem # None /\ Len(mem) = Len(r) THEN mem ELSE r
       /\ busy' = {} /\ last' = 0 /\ done' = FALSE
Start == /\ ~done /\ pending # <<>> /\ Cardinality(busy) < (IF par THEN Workers ELSE 1)
         /\ busy' = busy \cup {Head(pending)} /\ pending' = Tail(pending) /\ last' = Head(pending)
         /\ UNCHANGED <<hist, req, par, out, mem, done>>
\* smallest wavelength first
Insert(s, w) == LET k == Cardinality({i \in DOMAIN s : s[i] < w}) IN SubSeq(s, 1, k) \o <<w>> \o SubSeq(s, k + 1, Len(s))
Finish == /\ ~done
          /\ \E i \in busy :
               LET v == F((IF Mode = "memory" THEN mem ELSE req)[IF Mode = "last" THEN last ELSE i]) IN
               /\ busy' = busy \ {i}
               /\ out' = CASE Mode = "append" -> Append(out, v) [] Mode = "sorted" -> Insert(out, v) [] OTHER -> [out EXCEPT ![i] = v]
               /\ done' = (pending = <<>> /\ busy = {i})
          /\ UNCHANGED <<hist, req, par, pending, last, mem>>
Next == Ask \/ Start \/ Finish
AsAlone == done /\ req # None => out = Want(req)
\* one after the other the workers do not matter
Bounded == Cardinality(busy) <= (IF par THEN Workers ELSE 1)
View == <<hist, req, par, pending, busy, out, last, mem, done>>
Emit == EmitOn /\ done /\ hist # <<>> /\ busy = {} => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
