------------------------------- MODULE Summary ------------------------------
(* Summaries of redistribution matrices over azimuth (angle summaries).       *)
(* M is a sequence of columns (incidence channels of one hemisphere), each a  *)
(* sequence of outgoing power over all channels.                              *)
EXTENDS Channels
\* rows and columns of the polar bins (T is Table(d))
ColsOf(T, tin, front) == LET N == Len(T) \div 2 IN {c \in 1..N : T[IF front THEN c ELSE N + c][1] = tin}
RowsOf(T, tout) == {r \in 1..Len(T) : T[r][1] = tout}
SumBy(X, f(_)) == FoldLeft(LAMBDA a, x : Add(a, f(x)), 0, SetToSeq(X))
\* power into outgoing polar bin tout, averaged over the incidence azimuths of polar bin tin
Summary(T, M, tout, tin, front) ==
  LET cs == ColsOf(T, tin, front)  rs == RowsOf(T, tout)
  IN RDiv(SumBy(cs, LAMBDA c : SumBy(rs, LAMBDA r : M[c][r])), Cardinality(cs))
\* absorption per layer, summed over the incidence azimuths
SummaryA(T, A, lay, tin) == SumBy(ColsOf(T, tin, TRUE), LAMBDA c : A[c][lay])
InBins(d, front) == IF front THEN 0..(d.n - 1) ELSE d.n..(2 * d.n - 1)
=============================================================================
