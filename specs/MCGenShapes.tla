----------------------------- MODULE MCGenShapes -----------------------------
(* Structures and choices of requested profiles for which a generation function *)
(* can be built. A mask lists the layers of an interface: TRUE if requested;    *)
(* <<>> is an interface without layers.                                         *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxL
VARIABLES s, ok
Masks == UNION {[1..n -> BOOLEAN] : n \in 0..MaxL}
All == {m \in Masks : m # <<>> /\ \A i \in DOMAIN m : m[i]}
Some(m) == \E i \in DOMAIN m : m[i]
None == [type |-> "none", ints |-> <<>>, bulk |-> FALSE]
Init == s = None /\ ok = FALSE
Next == /\ ~ok /\ ok' = TRUE
        /\ \/ \E t \in {"tmm", "rcwa"}, m \in All : s' = [type |-> t, ints |-> <<m>>, bulk |-> FALSE]
           \/ \E n \in 2..3 : s' = [type |-> "rt", ints |-> [i \in 1..n |-> <<>>], bulk |-> TRUE]
           \/ \E a, b \in Masks, c \in {<<>>, <<TRUE>>, <<FALSE, TRUE>>}, n \in 2..3 :
                /\ a # <<>> \/ b # <<>>
                /\ s' = [type |-> "rtl", ints |-> IF n = 2 THEN <<a, b>> ELSE <<a, c, b>>, bulk |-> TRUE]
           \/ \E t \in {"mx", "mxrt"}, a, b \in Masks, k \in BOOLEAN :
                /\ k \/ Some(a) \/ Some(b)
                /\ s' = [type |-> t, ints |-> <<a, b>>, bulk |-> k]
Something == ok => s.type # "none" /\ (s.bulk \/ \E i \in DOMAIN s.ints : Some(s.ints[i]))
Emit == ok => PrintT(<<"BEH", ToJson(s)>>)
=============================================================================
