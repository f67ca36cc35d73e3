-------------------------------- MODULE Store -------------------------------
(* The store of redistribution matrices and lookup tables.                   *)
(*                                                                           *)
(* A request processes a structure with two interfaces at a place (location, *)
(* project) under two surface names. What a calculation would produce is     *)
(* abstracted to a class: which interface of the structure (1 front, 2 back) *)
(* and which variant of the inputs (1, 2).                                   *)
(*                                                                           *)
(* store: set of entries [k |-> key, c |-> class], key = <<loc, proj, name,  *)
(* side, part>>, with side "front"/"rear" and part "RT"/"A"/"prof", or side  *)
(* "table" and part "opt"/"coef" (coef: profile parameters in the table).    *)
(* Absent keys have class 0.                                                 *)
EXTENDS Integers, Sequences, FiniteSets
Class(pos, v) == 2 * (pos - 1) + v
Get(st, k) == IF \E x \in st : x.k = k THEN (CHOOSE x \in st : x.k = k).c ELSE 0
Put(st, k, c) == {x \in st : x.k # k} \cup (IF c = 0 THEN {} ELSE {[k |-> k, c |-> c]})
RECURSIVE PutAll(_, _, _)
PutAll(st, ks, c) == IF ks = <<>> THEN st ELSE PutAll(Put(st, Head(ks), c), Tail(ks), c)

Loc(p)  == IF p = "loc" THEN 2 ELSE 1
Proj(p) == IF p = "proj" THEN 2 ELSE 1
Names(p) == IF p = "names" THEN <<"c", "d">> ELSE IF p = "swap" THEN <<"b", "a">> ELSE <<"a", "b">>
Places == {"main", "loc", "proj", "names", "swap"}

Key(p, name, side, part) == <<Loc(p), Proj(p), name, side, part>>
\* --- one matrix item: name, side
Present(st, p, nm, sd, prof) == /\ Get(st, Key(p, nm, sd, "RT")) # 0 /\ Get(st, Key(p, nm, sd, "A")) # 0
                                /\ (prof => Get(st, Key(p, nm, sd, "prof")) # 0)
ProcItem(st, p, nm, sd, c, prof, ow) ==
  IF ~ow /\ Present(st, p, nm, sd, prof) THEN st
  ELSE LET s1 == PutAll(st, <<Key(p, nm, sd, "RT"), Key(p, nm, sd, "A")>>, c)
       IN Put(s1, Key(p, nm, sd, "prof"), IF prof THEN c ELSE 0)
\* --- one lookup table
ProcTable(st, p, nm, c, prof, ow) ==
  IF ~ow /\ Get(st, Key(p, nm, "table", "opt")) # 0 /\ (prof => Get(st, Key(p, nm, "table", "coef")) # 0) THEN st
  ELSE Put(Put(st, Key(p, nm, "table", "opt"), c), Key(p, nm, "table", "coef"), IF prof THEN c ELSE 0)
\* --- a request r = [p, v, prof, ow] with method m
\* "mat": matrices only; "rttmm": tables, and matrices made from the tables; "rts": tables of a ray-tracing structure, whose
\* names include the position
TabName(m, r, i) == IF m = "rts" THEN Names(r.p)[i] \o (IF i = 1 THEN "1" ELSE "2") ELSE Names(r.p)[i]
Tables(st, m, r) == IF m = "mat" THEN st ELSE
  ProcTable(ProcTable(st, r.p, TabName(m, r, 1), Class(1, r.v), r.prof, r.ow), r.p, TabName(m, r, 2), Class(2, r.v), r.prof, r.ow)
Src(st, m, r, i) == IF m = "mat" THEN Class(i, r.v) ELSE Get(st, Key(r.p, Names(r.p)[i], "table", "opt"))
Process(st, m, r) ==
  LET t == Tables(st, m, r) IN
  IF m = "rts" THEN t ELSE
  LET n == Names(r.p)
      s1 == ProcItem(t, r.p, n[1], "front", Src(t, m, r, 1), r.prof, r.ow)
      s2 == ProcItem(s1, r.p, n[1], "rear", Src(t, m, r, 1), r.prof, r.ow)
  IN ProcItem(s2, r.p, n[2], "front", Src(t, m, r, 2), r.prof, r.ow)
\* keys a request may touch
Touched(m, r) == {k \in {Key(r.p, n, s, q) : n \in {Names(r.p)[1], Names(r.p)[2], TabName(m, r, 1), TabName(m, r, 2)},
                         s \in {"front", "rear", "table"}, q \in {"RT", "A", "prof", "opt", "coef"}} : TRUE}
\* all parts of an item come from the same calculation
Consistent(st) == \A x, y \in st : (x.k[1] = y.k[1] /\ x.k[2] = y.k[2] /\ x.k[3] = y.k[3] /\ x.k[4] = y.k[4]) => x.c = y.c
\* what a request needs is there afterwards
Served(st, m, r) ==
  IF m = "rts" THEN \A i \in 1..2 : Get(st, Key(r.p, TabName(m, r, i), "table", "opt")) # 0 /\ (r.prof => Get(st, Key(r.p, TabName(m, r, i), "table", "coef")) # 0)
  ELSE /\ Present(st, r.p, Names(r.p)[1], "front", r.prof) /\ Present(st, r.p, Names(r.p)[1], "rear", r.prof)
       /\ Present(st, r.p, Names(r.p)[2], "front", r.prof)
=============================================================================
