------------------------------- MODULE Wiring -------------------------------
(* Copy constraints and the wiring permutation.  Targets are numbered from one; a copy is a pair of
   targets; classes are the reflexive, symmetric and transitive closure of the copies.  A labelling gives
   all targets of a class the same label. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Labels(_, _, _)
(* The labelling after the copies k, k+1, ... were merged into the labelling l. *)
Labels(copies, l, k) ==
  IF k > Len(copies) THEN l
  ELSE LET x == l[copies[k][1]] y == l[copies[k][2]] IN
       Labels(copies, IF x = y THEN l ELSE TLCEval([t \in DOMAIN l |-> IF l[t] = x THEN y ELSE l[t]]), k + 1)
Classes(n, copies) == Labels(copies, TLCEval([t \in 1..n |-> t]), 1)

(* sigma maps positions to positions. *)
RECURSIVE CycleLen(_, _, _, _)
CycleLen(sigma, from, at, k) == IF sigma[at] = from THEN k ELSE CycleLen(sigma, from, sigma[at], k + 1)
IsBijection(sigma) == {sigma[j] : j \in DOMAIN sigma} = DOMAIN sigma

(* sigma is a wiring permutation of the labelling: its cycles are exactly the classes of positions.
   lab[j] is the label of position j. *)
WiringOf(lab, sigma) ==
  /\ IsBijection(sigma)
  /\ \A j \in DOMAIN sigma : lab[sigma[j]] = lab[j]
  \* as many cycles as classes: count one representative, the least position, of each
  /\ LET reps == {j \in DOMAIN sigma : \A k \in 1..(j - 1) : lab[k] # lab[j]}
         size == TLCEval([r \in reps |-> Cardinality({j \in DOMAIN sigma : lab[j] = lab[r]})])
     IN \A r \in reps : CycleLen(sigma, r, r, 1) = size[r]
=============================================================================
