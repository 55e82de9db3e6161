------------------------------- MODULE FpSelf -------------------------------
(* The Java overrides of Fp and Poly agree with their TLA+ definitions: FpPure and PolyPure have the
   same text under names without an override. *)
EXTENDS Naturals, Sequences
O == INSTANCE Poly
P == INSTANCE PolyPure

Fields == {[big |-> FALSE, p |-> 7], [big |-> FALSE, p |-> 12289],
           [big |-> TRUE, p |-> <<4095, 4095>>], [big |-> TRUE, p |-> <<1, 0, 0, 9>>]}
Els(F) == IF F.big THEN {<<>>, <<1>>, <<4094, 4095>>, <<0, 77>>} ELSE {0, 1, F.p - 1, F.p \div 2}
VARIABLES F, a, b, x
vars == <<F, a, b, x>>
Init == /\ F \in Fields
        /\ \E n \in 0..3 : a \in [1..n -> Els(F)]
        /\ b = <<>> /\ x = FALSE
Next == /\ x = FALSE /\ x' = TRUE /\ UNCHANGED <<F, a>>
        /\ b' \in [1..Len(a) -> Els(F)]
Spec == Init /\ [][Next]_vars

Same == x =>
  /\ Len(a) >= 2 =>
       /\ O!FAdd(F, a[1], a[2]) = P!FAdd(F, a[1], a[2])
       /\ O!FSub(F, a[1], a[2]) = P!FSub(F, a[1], a[2])
       /\ O!FMul(F, a[1], a[2]) = P!FMul(F, a[1], a[2])
       /\ (~F.big) => O!PowSmall(a[1], a[2], F.p) = P!PowSmall(a[1], a[2], F.p)
       /\ \A n \in 0..5 : O!FPowersFrom(F, a[1], n, a[2]) = P!FPowersFrom(F, a[1], n, a[2])
       /\ \A n \in 0..5 : O!EvalOn(F, b, a[1], n) = P!EvalOn(F, b, a[1], n)
       /\ \A n \in 1..3 : O!FHorner(F, b, a[1], n) = P!FHorner(F, b, a[1], n)
  /\ \A n \in 1..3 : O!FInner(F, a, b, n) = P!FInner(F, a, b, n)
  /\ O!FSum(F, a) = P!FSum(F, a)
  /\ O!PMul(F, a, b \o a) = P!PMul(F, a, b \o a)
=============================================================================
