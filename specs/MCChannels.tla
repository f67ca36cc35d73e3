----------------------------- MODULE MCChannels -----------------------------
(* Exhaustive design model of the channels: a direction is launched and then  *)
(* handed over between the surfaces any number of times (up to MaxH).         *)
EXTENDS Channels, TLC, Json
CONSTANTS MaxN, Fineness, Periods, MaxH, EmitOn
F5 == {<<1, 4>>, <<1, 2>>, <<1, 1>>, <<1, 8>>, <<3, 4>>}
F3 == {<<1, 4>>, <<1, 2>>, <<1, 1>>}
VARIABLES d, T, c0, c, h
vars == <<d, T, c0, c, h>>

\* in the first step the starting channel is chosen
Init == \E n \in 1..MaxN, f \in Fineness, k \in Periods, lin \in BOOLEAN :
          /\ d = [n |-> n, cp |-> f[1], cq |-> f[2], k |-> k, lin |-> lin]
          /\ T = Table(d)
          /\ c0 = -1 /\ c = -1 /\ h = 0
Start == c0 = -1 /\ \E x \in Channels(d) : c0' = x /\ c' = x /\ UNCHANGED <<d, T, h>>
Hand == /\ c0 # -1 /\ h < MaxH /\ c' \in HandOver(d, c) /\ h' = h + 1 /\ UNCHANGED <<d, T, c0>>
Next == Start \/ Hand

TypeOK == c = -1 \/ c \in Channels(d)
\* every (polar bin, azimuth) belongs to exactly one channel, mirror symmetric
Partition == c0 # -1 \/
             (/\ NAll(d) = 2 * NIn(d) /\ Len(T) = NAll(d)
              /\ \A t \in 0..(2 * d.n - 1) : NPhi(d, t) >= 1 /\ NPhi(d, t) = NPhi(d, Mirror(d, t))
              /\ \A i \in 1..Len(T) : Chan(d, T[i][1], T[i][2]) = i - 1
              /\ Cardinality({<<T[i][1], T[i][2]>> : i \in 1..Len(T)}) = Len(T))
\* after an even number of hand-overs the light is in its original polar bin, after an odd one in the mirrored bin
PolarRestored == c0 = -1 \/ T[c + 1][1] = IF h % 2 = 0 THEN T[c0 + 1][1] ELSE Mirror(d, T[c0 + 1][1])
\* ... and where the opposite azimuth is inside a channel, in the original channel
Restored == (c0 # -1 /\ h % 2 = 0 /\ (d.k * T[c0 + 1][3]) % 2 = 0) => c = c0
Halves == c0 = -1 \/ (c < NIn(d)) = (IF h % 2 = 0 THEN c0 < NIn(d) ELSE c0 >= NIn(d))
\* equivalent azimuths are in the same channels
Equivalent == c0 # -1 \/
             \A m \in 1..4, x \in 0..8, p \in -2..2 : AzIn(x + 8 * p, 8, m) = AzIn(x, 8, m)
Emit == \/ ~EmitOn \/ c0 # -1 \/ PrintT(<<"BEH", ToJson(d)>>)
=============================================================================
