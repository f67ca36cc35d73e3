------------------------------ MODULE MCMatrix ------------------------------
(* Exhaustive design model: two channels per hemisphere, every combination of *)
(* column types for the three surface/side matrices, two bulk absorptions.    *)
EXTENDS Matrix, TLC, Json
CONSTANTS Kinds, Bulks, Launches, Thr, EmitOn
K4 == {"R", "T", "mix", "abs"}
K5 == {"R", "T", "mix", "abs", "swap"}
VARIABLES y, s, key
vars == <<y, s, key>>

\* a column type: what happens to light in channel j: <<reflected, transmitted, absorbed>>
ColR(k, j) == CASE k = "R" -> [i \in 1..2 |-> IF i = j THEN S ELSE 0]
                [] k = "swap" -> [i \in 1..2 |-> IF i = j THEN 0 ELSE 700000]
                [] k = "mix" -> [i \in 1..2 |-> IF i = j THEN 250000 ELSE 150000]
                [] k = "abs" -> [i \in 1..2 |-> IF i = j THEN 300000 ELSE 0]
                [] OTHER -> Zero(2)
ColT(k, j) == CASE k = "T" -> [i \in 1..2 |-> IF i = j THEN S ELSE 0]
                [] k = "swap" -> [i \in 1..2 |-> IF i = j THEN 300000 ELSE 0]
                [] k = "mix" -> [i \in 1..2 |-> IF i = j THEN 400000 ELSE 100000]
                [] k = "abs" -> [i \in 1..2 |-> IF i = j THEN 0 ELSE 200000]
                [] OTHER -> Zero(2)
ColA(k, j) == CASE k = "mix" -> <<100000>> [] k = "abs" -> <<500000>> [] OTHER -> <<0>>
Mat(f(_, _), ks) == [j \in 1..2 |-> f(ks[j], j)]

Init == \E f, b, g \in Kinds \X Kinds : \E bk \in DOMAIN Bulks : \E ln \in DOMAIN Launches :
          /\ key = [f |-> f, b |-> b, g |-> g, bk |-> bk, ln |-> ln]
          /\ y = [n |-> 2, Rf |-> Mat(ColR, f), Tf |-> Mat(ColT, f), Af |-> Mat(ColA, f),
                  Rb |-> Mat(ColR, b), Tb |-> Mat(ColT, b), Ab |-> Mat(ColA, b),
                  R2 |-> Mat(ColR, g), T2 |-> Mat(ColT, g), A2 |-> Mat(ColA, g),
                  dn |-> <<2, 1>>, up |-> <<2, 1>>, tr |-> Bulks[bk], tu |-> Bulks[bk], thr |-> Thr]
          /\ s = Light(y, Launches[ln])
Go == CASE s.ph = "launch" -> s' = EnterFront(y, s)
        [] s.ph = "inside" /\ s.pass < 6 /\ (s.pass = 0 \/ Power(s) > y.thr) -> s' = CrossDown(y, s)
        [] s.ph = "back" -> s' = HitBack(y, s)
        [] s.ph = "up" -> s' = CrossUp(y, s)
        [] s.ph = "front" -> s' = HitFront(y, s)
        [] OTHER -> FALSE
Next == Go /\ UNCHANGED <<y, key>>
B2 == <<<<S, S>>, <<800000, 500000>>>>
L2 == <<<<S, 0>>, <<500000, 500000>>>>

\* C05: at every point what was booked plus what is still inside is what was launched
Ledger == Near(Booked(s) + Power(s), S, 40)
\* per pass bookkeeping is complete
PerPass == s.ph = "inside" =>
             /\ Len(s.r) = s.pass + 1 /\ Len(s.t) = s.pass /\ Len(s.a2) = s.pass /\ Len(s.a1) = s.pass + 1
             /\ Len(s.A) = 2 * s.pass
Positive == /\ \A i \in 1..2 : s.v[i] >= 0
            /\ \A i \in 1..Len(s.A) : s.A[i] >= -2
PowerFalls == [][Sum(s'.v) <= Sum(s.v) + 4]_vars
Done == s.ph = "inside" /\ s.pass > 0 /\ (Power(s) <= y.thr \/ s.pass = 6)
Emit == \/ ~EmitOn \/ ~Done \/ PrintT(<<"BEH", ToJson([key |-> key, passes |-> s.pass, left |-> Power(s)])>>)
=============================================================================
