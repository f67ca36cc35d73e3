----------------------------- MODULE MCRedist -----------------------------
(* Design check of the redistribution at a surface, over discretisations,      *)
(* channels and index pairs; also the generator of the calculations to make.   *)
EXTENDS Redist, Json
CONSTANTS MaxN, Fineness, Periods, Indices, EmitOn
F3 == {<<1, 4>>, <<1, 2>>, <<1, 1>>}
F2 == {<<1, 4>>, <<1, 2>>}
Media == {<<1000000, 0>>, <<1500000, 0>>, <<3500000, 0>>, <<2000000, 500000>>}
VARIABLES d, T, c, pair
vars == <<d, T, c, pair>>
Init == \E n \in 1..MaxN, f \in Fineness, k \in Periods, lin \in BOOLEAN :
        /\ d = [n |-> n, cp |-> f[1], cq |-> f[2], k |-> k, lin |-> lin]
        /\ T = Table(d) /\ c = -1 /\ pair = <<>>
Next == /\ c = -1 /\ ~EmitOn /\ c' \in Channels(d) /\ pair' \in Indices \X Indices \X {"s", "p"} /\ pair'[1][2] = 0 /\ UNCHANGED <<d, T>>

\* sine of the middle of a bin, approximately (the exact value is not needed here)
Mid == LET q == FromNormal(d, T[c + 1][1])  IN RDiv(EdgeSin(d, q) + EdgeSin(d, q + 1), 2)
Med == <<[n |-> pair[1], d |-> 0, inc |-> FALSE], [n |-> pair[2], d |-> 0, inc |-> FALSE]>>
n1 == pair[1][1]
n2 == pair[2][1]
Crit == Div(Mul(n1, Mid), n2)
Started == c # -1
Usable == Started /\ (Crit < 950000 \/ Crit > 1050000)

\* reflection stays on its side and in its polar bin; doing it twice restores the channel (where channels and half turns match)
Mirrors == Started => \A o \in Reflected(d, c) :
             /\ IsFront(d, o) = IsFront(d, c) /\ T[o + 1][1] = T[c + 1][1]
             /\ ((d.k * T[c + 1][3]) % 2 = 0 => Reflected(d, o) = {c})
\* refraction goes to the other side, further from the normal into a rarer medium and closer into a denser one, and back again
Refracts == Usable => \A o \in Refracted(d, c, Mid, n1, n2) :
             LET q == FromNormal(d, T[c + 1][1])  r == FromNormal(d, T[o + 1][1]) IN
             /\ IsFront(d, o) # IsFront(d, c)
             /\ (n1 = n2 => r = q) /\ (n1 > n2 => r >= q) /\ (n1 < n2 => r <= q)
             /\ (Crit < S => \E b \in Refracted(d, o, Crit, n2, n1) : T[b + 1][1] = T[c + 1][1])
Somewhere == Usable => Reflected(d, c) # {} /\ Refracted(d, c, Mid, n1, n2) # {}
\* power is conserved; nothing is transmitted beyond the critical angle of lossless media
Conserved == Usable => LET r == Planar(Med, pair[3], Mul(n1, Mid)) IN
             /\ Near(r.R + r.T, S, 4) /\ r.R >= 0 /\ r.T >= -4
             /\ (pair[2][2] = 0 /\ Crit > S => r.T = 0)
\* Lambertian scattering is complete and does not depend on how azimuths are divided
Lambert == c = -1 => /\ Near(Sum([x \in 1..NIn(d) |-> LambertShare(d, x - 1)]), S, NIn(d) + 5)
                     /\ \A x \in 0..(NIn(d) - 1) : LambertShare(d, x) > 0
Emit == ~EmitOn \/ c # -1 \/ PrintT(<<"BEH", ToJson(d)>>)
=============================================================================
