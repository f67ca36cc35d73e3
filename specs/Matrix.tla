------------------------------- MODULE Matrix -------------------------------
(* The matrix method: light bouncing between a front surface, a bulk layer    *)
(* and a back surface, described by the power per angular channel.            *)
(* A system y is a record of                                                  *)
(*   n             number of incoming channels (per hemisphere)               *)
(*   Rf, Tf, Af    front surface, light from above   (column j of a matrix is *)
(*   Rb, Tb, Ab    front surface, light from below    the sequence M[j])      *)
(*   R2, T2, A2    back surface, light from above                             *)
(*   dn, up        hand-over: index of the incoming channel each outgoing     *)
(*                 channel arrives in                                         *)
(*   tr            transmission of the bulk per channel (downwards)           *)
(*   tu            the same for channels travelling upwards                   *)
(*   thr           cut-off                                                    *)
(* and the light is in a state [ph, v, ...] with a ledger of what was booked. *)
EXTENDS FixedPoint, TLC

SumM(v) == Sum(v)
Apply(M, v, rows) == TLCEval([i \in 1..rows |-> Sum([j \in 1..Len(v) |-> Mul(M[j][i], v[j])])])
Hand(map, v) == TLCEval([i \in 1..Len(v) |-> Sum([j \in 1..Len(v) |-> IF map[j] = i THEN v[j] ELSE 0])])
Cross(tr, v) == TLCEval([i \in 1..Len(v) |-> Mul(tr[i], v[i])])
Zero(n) == [i \in 1..n |-> 0]

Light(y, v0) == [ph |-> "launch", v |-> v0, pass |-> 0,
                 r |-> <<>>, t |-> <<>>, a1 |-> <<>>, a2 |-> <<>>, A |-> <<>>,   \* ledger, one entry per event
                 seen |-> <<>>]                                                 \* <<surface/crossing, incoming vector>>

EnterFront(y, s) ==
  [s EXCEPT !.ph = "inside", !.v = Apply(y.Tf, s.v, y.n), !.r = Append(@, Apply(y.Rf, s.v, y.n)),
            !.a1 = Append(@, Apply(y.Af, s.v, Len(y.Af[1]))), !.seen = Append(@, <<"f", s.v>>)]
CrossDown(y, s) ==
  LET in == Hand(y.dn, s.v)  out == Cross(y.tr, in)
  IN [s EXCEPT !.ph = "back", !.v = out, !.A = Append(@, Sum(in) - Sum(out)), !.seen = Append(@, <<"d", in>>)]
HitBack(y, s) ==
  [s EXCEPT !.ph = "up", !.v = Apply(y.R2, s.v, y.n), !.t = Append(@, Apply(y.T2, s.v, y.n)),
            !.a2 = Append(@, Apply(y.A2, s.v, Len(y.A2[1]))), !.seen = Append(@, <<"b", s.v>>)]
CrossUp(y, s) ==
  LET out == Cross(y.tu, s.v)
  IN [s EXCEPT !.ph = "front", !.v = Hand(y.up, out), !.A = Append(@, Sum(s.v) - Sum(out)), !.seen = Append(@, <<"u", s.v>>)]
HitFront(y, s) ==
  [s EXCEPT !.ph = "inside", !.v = Apply(y.Rb, s.v, y.n), !.r = Append(@, Apply(y.Tb, s.v, y.n)),
            !.a1 = Append(@, Apply(y.Ab, s.v, Len(y.Ab[1]))), !.pass = @ + 1, !.seen = Append(@, <<"F", s.v>>)]
Pass(y, s) == LET p1 == TLCEval(CrossDown(y, s))  p2 == TLCEval(HitBack(y, p1))  p3 == TLCEval(CrossUp(y, p2)) IN TLCEval(HitFront(y, p3))
Power(s) == Sum(s.v)
Total(rows) == Sum([i \in 1..Len(rows) |-> Sum(rows[i])])
Booked(s) == Sum(<<Total(s.r), Total(s.t), Total(s.a1), Total(s.a2), Sum(s.A)>>)

\* a group of wavelengths (systems) is iterated together until all are at or below the cut-off, at least one pass
RECURSIVE IterAll(_, _, _)
IterAll(ys, ss, k) ==
  IF k = 0 \/ (ss[1].pass > 0 /\ \A i \in 1..Len(ss) : Power(ss[i]) <= ys[i].thr) THEN ss
  ELSE IterAll(ys, TLCEval([i \in 1..Len(ss) |-> Pass(ys[i], ss[i])]), k - 1)
=============================================================================
