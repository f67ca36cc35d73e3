---------------------------- MODULE MCGeneration ----------------------------
(* Every structure with up to MaxP parts of up to MaxL layers and every choice  *)
(* of requested layers: assembling the stored profiles puts every sample of     *)
(* every requested layer at its own depth, once, and nothing anywhere else.     *)
EXTENDS Generation, Json
CONSTANTS MaxP, MaxL, EmitOn
VARIABLES ps, done
Lay == [w : {2, 4}, req : BOOLEAN]
Part == [lay : UNION {[1..n -> Lay] : n \in 1..MaxL}, h : {1, 2}]
Init == ps = <<>> /\ done = FALSE
Next == \/ Len(ps) < MaxP /\ \E p \in Part : ps' = Append(ps, p) /\ UNCHANGED done
        \/ ps # <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED ps
\* what the reader of the stored profiles builds: <<position, part, layer, index within the layer>>
Built == FoldLeft(LAMBDA acc, k :
           acc \o FoldLeft(LAMBDA a, j :
              a \o [i \in 1..(ps[k].lay[j].w \div ps[k].h) |-> <<LayerTop(ps, k, j) + (i - 1) * ps[k].h, k, j, i, Stored(ps[k], j) + i>>],
              <<>>, [j \in DOMAIN ps[k].lay |-> j]), <<>>, [k \in DOMAIN ps |-> k])
SameGrid == done => [x \in DOMAIN Built |-> Built[x][1]] = Positions(ps)
RightLayer == done => \A x \in DOMAIN Built : At(ps, Built[x][1]) = <<Built[x][2], Built[x][3]>>
\* requested samples use each stored value exactly once, in order
StoredOnce == done => \A k \in DOMAIN ps :
     LET used == SelectSeq(Built, LAMBDA b : b[2] = k /\ ps[k].lay[b[3]].req) IN \A x \in DOMAIN used : used[x][5] = x
Ascending == done => \A x \in 2..Len(Built) : Built[x - 1][1] < Built[x][1]
Emit == (EmitOn /\ done) => PrintT(<<"BEH", ToJson(ps)>>)
=============================================================================
