------------------------------ MODULE PolyLaw -------------------------------
(* The definitions of Poly.tla against each other on all small polynomials:
   quotient and remainder exist and are unique, the radix-2 transform is
   evaluation on the domain and is injective, multiplication evaluates to the
   product, and the closed form of the Halo polynomial has the stated
   coefficients. *)
EXTENDS Poly, FiniteSets
CONSTANTS P, D, W2, W4                  \* W2, W4: roots of unity of order 2 and 4
F == [big |-> FALSE, p |-> P]
Pols(n) == [1..n -> 0..(P - 1)]
VARIABLES a, b, go
Init == a \in Pols(D) /\ b = <<>> /\ go = FALSE
Next == ~go /\ go' = TRUE /\ a' = a /\ b' \in Pols(D - 1)
Spec == Init /\ [][Next]_<<a, b, go>>
Law == go =>
  /\ PEq(F, PMul(F, a, b), PMul(F, b, a))
  /\ \A x \in 0..(P - 1) : FPoly(F, PMul(F, a, b), x) = FMul(F, FPoly(F, a, x), FPoly(F, b, x))
  /\ PDeg(F, b) >= 0 =>
       Cardinality({<<q, r>> \in Pols(D) \X Pols(PDeg(F, b)) : IsDiv(F, a, b, q, r)}) = 1
  /\ Fft(F, Pad(F, b, 2), W2) = EvalOn(F, Pad(F, b, 2), W2, 2)
  /\ Fft(F, Pad(F, a, 4), W4) = EvalOn(F, a, W4, 4)
  /\ (Fft(F, Pad(F, a, 4), W4) = Fft(F, Pad(F, b, 4), W4)) = PEq(F, a, b)
  /\ (\A j \in 1..Len(a) : a[j] # 0) =>
       \A x \in 0..(P - 1) : FPoly(F, HaloS(F, a), x) = HaloG(F, a, x)
=============================================================================
