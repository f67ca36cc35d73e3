---------------------------- MODULE TmmSession ----------------------------
(* Histories of edits of a multilayer stack. The physical stack is a sequence  *)
(* of NL layers; what the user has written down is a sequence of pieces: part  *)
(* of a layer (in eighths) or an inserted layer of no thickness (layer 0).     *)
(* Splitting and inserting never change the physical stack, changing widths    *)
(* does (and changing them back undoes it), reversing turns it around.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS NL, MaxLen, EmitOn
VARIABLES pieces, scale, rev, list, hist
vars == <<pieces, scale, rev, list, hist>>
Snap(op, p, s, r, m) == [op |-> op, pieces |-> p, scale |-> s, rev |-> r, list |-> m]
Init == /\ pieces = [j \in 1..NL |-> <<j, 8>>] /\ scale = [j \in 1..NL |-> 1] /\ rev = FALSE /\ list = FALSE
        /\ hist = <<Snap("new", pieces, scale, rev, list)>>
Log(op) == hist' = Append(hist, Snap(op, pieces', scale', rev', list'))
Split(i) == /\ pieces[i][1] > 0 /\ pieces[i][2] > 1
            /\ \E a \in {1, pieces[i][2] \div 2} :
               pieces' = SubSeq(pieces, 1, i - 1) \o <<<<pieces[i][1], a>>, <<pieces[i][1], pieces[i][2] - a>>>> \o SubSeq(pieces, i + 1, Len(pieces))
            /\ UNCHANGED <<scale, rev, list>> /\ Log("split")
Insert(i) == /\ pieces' = SubSeq(pieces, 1, i - 1) \o <<<<0, 0>>>> \o SubSeq(pieces, i, Len(pieces))
             /\ UNCHANGED <<scale, rev, list>> /\ Log("insert")
Widths(j) == /\ scale' = [scale EXCEPT ![j] = 3 - @] /\ UNCHANGED <<pieces, rev, list>> /\ Log("widths")
TurnRound == /\ rev' = ~rev /\ pieces' = [i \in 1..Len(pieces) |-> pieces[Len(pieces) + 1 - i]] /\ UNCHANGED <<scale, list>> /\ Log("reverse")
Mark == /\ list' = ~list /\ UNCHANGED <<pieces, scale, rev>> /\ Log("mark")
Next == /\ Len(hist) <= MaxLen
        /\ \/ \E i \in 1..Len(pieces) : Split(i)
           \/ \E i \in 1..(Len(pieces) + 1) : Insert(i)
           \/ \E j \in 1..NL : Widths(j)
           \/ TurnRound \/ Mark
\* the pieces are always the physical layers in order, cut up
Real == SelectSeq(pieces, LAMBDA x : x[1] > 0)
Order == LET r == IF rev THEN [i \in 1..Len(Real) |-> Real[Len(Real) + 1 - i]] ELSE Real IN
         /\ \A i \in 1..(Len(r) - 1) : r[i][1] <= r[i + 1][1]
         /\ \A j \in 1..NL : FoldLeft(LAMBDA a, x : a + (IF x[1] = j THEN x[2] ELSE 0), 0, r) = 8
Undone == scale \in [1..NL -> {1, 2}]
Emit == (EmitOn /\ Len(hist) = MaxLen + 1) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
