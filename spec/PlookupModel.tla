---------------------------- MODULE PlookupModel ----------------------------
(* The law the lookup argument rests on: the products over a list f, a table t and a sequence s agree for all
   challenges only if f's values are in t, and they do agree for the union of f and t in the table's order.
   Values V are residues of a prime larger than the products' degrees, so that agreeing for all challenges is
   equality of polynomials. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS n, Vals
P == 17
V == 0..(Vals - 1)

VARIABLES f, t, s
vars == <<f, t, s>>
Init == f \in [1..n -> V] /\ t \in [1..(n + 1) -> V] /\ s \in [1..(2 * n + 1) -> V]
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

RECURSIVE Prod(_, _)
Prod(x, k) == IF k = 0 THEN 1 ELSE (x[k] * Prod(x, k - 1)) % P
Pairs(x, be, ga, len) == [k \in 1..len |-> (ga * (1 + be) + x[k] + be * x[k + 1]) % P]
Left(be, ga) == (Prod([k \in 1..n |-> (((1 + be) % P) * (ga + f[k])) % P], n) * Prod(Pairs(t, be, ga, n), n)) % P
Right(x, be, ga) == Prod(Pairs(x, be, ga, 2 * n), 2 * n)
Agree(x) == \A be \in 0..(P - 1), ga \in 0..(P - 1) : Left(be, ga) = Right(x, be, ga)

Inside == \A k \in 1..n : \E j \in 1..(n + 1) : f[k] = t[j]
\* the table in its order, each value followed, where it first occurs, by the list's values equal to it
RECURSIVE Merge(_)
Merge(j) == IF j > n + 1 THEN <<>>
  ELSE <<t[j]>> \o (IF \E k \in 1..(j - 1) : t[k] = t[j] THEN <<>> ELSE SelectSeq(f, LAMBDA x : x = t[j])) \o Merge(j + 1)

Sound == Agree(s) => Inside
Complete == (\A k \in DOMAIN s : s[k] = 0) /\ Inside => Agree(Merge(1))    \* does not depend on s
=============================================================================
