----------------------------- MODULE Wavelengths ----------------------------
(* What is calculated for a request, a sequence of different wavelengths: one   *)
(* result for each, listed in the order of the request, which is a function of *)
(* that wavelength only (for the objects and options at hand).                  *)
EXTENDS Integers, Sequences
Requests(W, n) == {r \in UNION {[1..k -> W] : k \in 1..n} : \A i, j \in DOMAIN r : i # j => r[i] # r[j]}
\* the result for a wavelength, symbolically
F(w) == w
Want(r) == [i \in DOMAIN r |-> F(r[i])]
=============================================================================
