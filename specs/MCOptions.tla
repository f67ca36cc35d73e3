------------------------------ MODULE MCOptions -----------------------------
(* Histories of at most N operations on up to two options objects. Wrong       *)
(* implementations: defaults shared between instances, the singular name first, *)
(* the wavelengths remembered from the first calculation, the plural name       *)
(* removed once it was used.                                                   *)
EXTENDS Options, TLC, Json
CONSTANTS N, Mode, EmitOn
VARIABLES objs, impl, hist, ok
vars == <<objs, impl, hist, ok>>
Init == objs = <<>> /\ impl = [o |-> <<>>, nest |-> 0, poked |-> FALSE] /\ hist = <<>> /\ ok = TRUE
\* the implementation's object: what it holds, and what it remembers
IObj(form) == [sing |-> 0, plu |-> 0, nest |-> 0, poked |-> FALSE, mem |-> 0, form |-> form]
Nest(i) == IF Mode = "shared" /\ impl.o[i].form = "default" THEN impl.nest ELSE impl.o[i].nest
Poked(i) == IF Mode = "sharedarray" /\ impl.o[i].form = "default" /\ impl.o[i].sing = 0 THEN impl.poked ELSE impl.o[i].poked
Used(i) == LET o == impl.o[i] IN
  CASE Mode = "singular" -> IF o.sing # 0 THEN o.sing ELSE o.plu
    [] Mode = "stale" /\ o.mem # 0 -> o.mem
    [] OTHER -> IF o.plu # 0 THEN o.plu ELSE o.sing
Rec(op, i, v, f) == hist' = Append(hist, [op |-> op, i |-> i, v |-> v, form |-> f])
Make == /\ Len(objs) < 2
        /\ \E f \in Forms : /\ objs' = Append(objs, New(f)) /\ impl' = [impl EXCEPT !.o = Append(@, IObj(f))]
                            /\ Rec("new", Len(objs) + 1, 0, f)
        /\ ok' = ok
Edit == \E i \in 1..Len(objs), op \in {"sing", "plu", "nest", "poke"}, v \in {1, 2} :
        /\ (op = "poke" => CanPoke(objs[i]) /\ v = 1) /\ (op = "nest" => CanNest(objs[i]) /\ v = 1)
        /\ objs' = [objs EXCEPT ![i] = Apply(@, op, v)]
        /\ impl' = [o |-> [impl.o EXCEPT ![i] = CASE op = "sing" -> [@ EXCEPT !.sing = v, !.poked = FALSE] [] op = "plu" -> [@ EXCEPT !.plu = v]
                                               [] op = "nest" -> [@ EXCEPT !.nest = v] [] OTHER -> [@ EXCEPT !.poked = TRUE]],
                    nest |-> IF op = "nest" THEN v ELSE impl.nest, poked |-> impl.poked \/ op = "poke"]
        /\ Rec(op, i, v, "") /\ ok' = ok
Calc == \E i \in 1..Len(objs) :
        /\ Effective(objs[i]) # 0
        /\ ok' = (ok /\ Used(i) = Effective(objs[i]))
        \* the alias may be resolved in the object which was passed
        /\ impl' = [impl EXCEPT !.o[i].mem = Used(i), !.o[i].sing = Used(i)]
        /\ UNCHANGED objs /\ Rec("calc", i, 0, "")
Look == \E i \in 1..Len(objs) :
        /\ CanNest(objs[i])
        /\ ok' = (ok /\ Nest(i) = objs[i].nest /\ (CanPoke(objs[i]) => Poked(i) = objs[i].poked))
        /\ UNCHANGED <<objs, impl>> /\ Rec("look", i, 0, "")
Next == Len(hist) < N /\ (Make \/ Edit \/ Calc \/ Look)
AsMeant == ok
TypeOK == \A i \in 1..Len(objs) : objs[i].form \in Forms /\ Effective(objs[i]) \in 0..2
\* histories which end with something to observe
Emit == EmitOn /\ Len(hist) > 1 /\ hist[Len(hist)].op \in {"calc", "look"} => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
