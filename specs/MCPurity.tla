------------------------------ MODULE MCPurity ------------------------------
(* Sequences of N calculations on shared inputs. In the mode "kind" the         *)
(* calculations of Dirty change one of the inputs they read.                   *)
EXTENDS Purity, TLC, Json
CONSTANTS Entries, Dirty, Mode, N, EmitOn
VARIABLES ver, hist, res
vars == <<ver, hist, res>>
Fresh == [k \in Kinds |-> 0]
Init == ver = Fresh /\ hist = <<>> /\ res = <<>>
Calc(e) == /\ hist' = Append(hist, e) /\ res' = Append(res, Result(e, ver))
           /\ ver' = IF Mode \in Reads(e) /\ e \in Dirty THEN [ver EXCEPT ![Mode] = @ + 1] ELSE ver
Next == Len(hist) < N /\ \E e \in Entries : Calc(e)
Untouched == ver = Fresh
Repeatable == \A i, j \in 1..Len(res) : hist[i] = hist[j] => res[i] = res[j]
AsFresh == \A i \in 1..Len(res) : res[i] = Result(hist[i], Fresh)
Emit == EmitOn /\ Len(hist) = N => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
