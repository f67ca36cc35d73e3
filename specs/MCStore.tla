------------------------------- MODULE MCStore ------------------------------
(* All request histories up to MaxLen.                                       *)
EXTENDS Store, TLC, Json
CONSTANTS Meth, MaxLen, Profs, EmitOn
ProfBoth == {TRUE, FALSE}
ProfNo == {FALSE}
VARIABLES st, hist, prev
Reqs == [p : Places, v : {1, 2}, prof : Profs, ow : BOOLEAN]
Init == st = {} /\ hist = <<>> /\ prev = {}
Next == /\ Len(hist) < MaxLen
        /\ \E r \in Reqs : /\ (hist # <<>> \/ (r.p = "main" /\ r.v = 1 /\ ~r.ow))
                           /\ hist' = Append(hist, r) /\ prev' = st /\ st' = Process(st, Meth, r)
Last == hist[Len(hist)]
Held == hist # <<>> => Served(st, Meth, Last)
OneCalculation == Consistent(st)
\* overwriting gives the current inputs everywhere the request looks
Overwritten == (hist # <<>> /\ Last.ow) => \A x \in st : x.k \in Touched(Meth, Last) /\ x.k[1] = Loc(Last.p) /\ x.k[2] = Proj(Last.p)
                 /\ (x.k[3] = Names(Last.p)[2] => x.k[4] # "rear") => x.c \in {Class(1, Last.v), Class(2, Last.v)}
\* reuse leaves every present file as it was; nothing of another place changes
Kept == hist # <<>> => \A x \in prev : x.k \notin Touched(Meth, Last) => x \in st
Emit == ~EmitOn \/ Len(hist) # MaxLen \/ PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
