------------------------------ MODULE MCSummary -----------------------------
(* Exhaustive over discretisations, sides and one-hot matrices (the summary   *)
(* is linear): power is put in exactly one place and none is lost.            *)
EXTENDS Summary, TLC, Json
CONSTANTS MaxN, Fineness, EmitOn
F3 == {<<1, 4>>, <<1, 2>>, <<1, 1>>}
F4 == {<<1, 4>>, <<1, 2>>, <<1, 1>>, <<2, 1>>}
VARIABLES d, T, front, hot
Init == \E n \in 1..MaxN, f \in Fineness, fr \in BOOLEAN :
          /\ d = [n |-> n, cp |-> f[1], cq |-> f[2], k |-> 4, lin |-> FALSE] /\ T = Table(d) /\ front = fr /\ hot = <<0, 0>>
Next == /\ hot = <<0, 0>> /\ \E c \in 1..NIn(d), r \in 1..NAll(d) : hot' = <<c, r>>
        /\ UNCHANGED <<d, T, front>>
M == [c \in 1..NIn(d) |-> [r \in 1..NAll(d) |-> IF <<c, r>> = hot THEN 840000 ELSE 0]]
PowerKept == hot = <<0, 0>> \/
  LET ti == T[IF front THEN hot[1] ELSE NIn(d) + hot[1]][1]  to == T[hot[2]][1]  m == T[hot[1]][3]  mm == TLCEval(M) IN
  \A i \in InBins(d, front), o \in 0..(2 * d.n - 1) :
     Summary(T, mm, o, i, front) = IF i = ti /\ o = to THEN 840000 \div NPhi(d, ti) ELSE 0
Emit == ~EmitOn \/ hot # <<0, 0>> \/ ~front \/ PrintT(<<"BEH", ToJson(d)>>)
=============================================================================
