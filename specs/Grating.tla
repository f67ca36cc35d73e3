------------------------------- MODULE Grating ------------------------------
(* Different descriptions of one physical situation: a periodic layered        *)
(* structure and the light falling on it. A description lists pieces of layers *)
(* (<<layer, eighths>>; layer 0 has no thickness), where the shapes are drawn  *)
(* relative to the unit cell (off), how structure and light are turned and     *)
(* mirrored (elements of the group of the square, <<quarter turns, mirrored>>: *)
(* mirrored at x = 0 first, then turned), the unit of length, and which of     *)
(* several equivalent ways to write shapes, layers, polarisation and azimuth   *)
(* are used.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Mod4(x) == ((x % 4) + 4) % 4
\* g after h: turning after mirroring; mirroring reverses turns
After(g, h) == <<Mod4(g[1] + (IF g[2] THEN -h[1] ELSE h[1])), g[2] # h[2]>>
Turn == <<1, FALSE>>
Mirror == <<0, TRUE>>
Same == <<0, FALSE>>
Plain(nl) == [pieces |-> [j \in 1..nl |-> <<j, 8>>], off |-> 0, str |-> Same, light |-> Same, unit |-> 1, turns |-> 0, form |-> 0, first |-> 0, pol |-> 0, list |-> 0]
Apply(d, op) ==
  CASE op.op = "split" -> LET i == op.i   p == d.pieces[i]   a == p[2] \div 2 IN
         IF p[2] < 2 THEN d ELSE [d EXCEPT !.pieces = SubSeq(@, 1, i - 1) \o <<<<p[1], a>>, <<p[1], p[2] - a>>>> \o SubSeq(@, i + 1, Len(@))]
    [] op.op = "insert" -> [d EXCEPT !.pieces = SubSeq(@, 1, op.i - 1) \o <<<<0, 0>>>> \o SubSeq(@, op.i, Len(@))]
    [] op.op = "move" -> [d EXCEPT !.off = @ + 1]
    [] op.op = "turn" -> [d EXCEPT !.str = After(Turn, @), !.light = After(Turn, @)]
    [] op.op = "mirror" -> [d EXCEPT !.str = After(Mirror, @), !.light = After(Mirror, @)]
    [] op.op = "unit" -> [d EXCEPT !.unit = 3 - @]
    [] op.op = "round" -> [d EXCEPT !.turns = 1 - @]
    [] op.op = "form" -> [d EXCEPT !.form = 1 - @]
    [] op.op = "order" -> [d EXCEPT !.first = 1 - @]
    [] op.op = "pol" -> [d EXCEPT !.pol = 1 - @]
    [] op.op = "list" -> [d EXCEPT !.list = 1 - @]
    [] OTHER -> d
Ops(d) == [op : {"split", "insert"}, i : 1..Len(d.pieces)] \cup [op : {"move", "turn", "mirror", "unit", "round", "form", "order", "pol", "list"}, i : {0}]
\* what is physical about a description: the layers, and how the light is oriented relative to the structure
Undo(g) == IF g[2] THEN g ELSE <<Mod4(-g[1]), FALSE>>
Physics(d, nl) == [layers |-> [j \in 1..nl |-> FoldLeft(LAMBDA a, x : a + (IF x[1] = j THEN x[2] ELSE 0), 0, d.pieces)],
                   order |-> LET r == SelectSeq(d.pieces, LAMBDA x : x[1] > 0) IN \A i \in 1..(Len(r) - 1) : r[i][1] <= r[i + 1][1],
                   rel |-> After(Undo(d.str), d.light)]
=============================================================================
