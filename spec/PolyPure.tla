-------------------------------- MODULE PolyPure --------------------------------
(* Univariate polynomials over a field F as sequences of coefficients, lowest
   first, possibly with zeros at the end; a polynomial is what remains once
   those are stripped. *)
EXTENDS FpPure

Co(F, a, j) == IF j < Len(a) THEN a[j + 1] ELSE F0(F)
RECURSIVE PStrip(_, _)
PStrip(F, a) == IF a = <<>> \/ a[Len(a)] # F0(F) THEN a ELSE PStrip(F, SubSeq(a, 1, Len(a) - 1))
PDeg(F, a) == Len(PStrip(F, a)) - 1              \* -1 for zero
PMax(i, j) == IF i > j THEN i ELSE j
PEq(F, a, b) == PStrip(F, a) = PStrip(F, b)
PAdd(F, a, b) == [j \in 1..PMax(Len(a), Len(b)) |-> FAdd(F, Co(F, a, j - 1), Co(F, b, j - 1))]
PScale(F, x, a) == [j \in 1..Len(a) |-> FMul(F, x, a[j])]

RECURSIVE ConvAt(_, _, _, _, _, _)
ConvAt(F, a, b, k, j, hi) == IF j > hi THEN F0(F)
  ELSE FAdd(F, FMul(F, a[j + 1], b[k - j + 1]), ConvAt(F, a, b, k, j + 1, hi))
PMul(F, a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE [k \in 1..(Len(a) + Len(b) - 1) |->
         ConvAt(F, a, b, k - 1, PMax(0, k - Len(b)), IF k - 1 < Len(a) THEN k - 1 ELSE Len(a) - 1)]

(* q and r are quotient and remainder of a by b. *)
IsDiv(F, a, b, q, r) == /\ PEq(F, a, PAdd(F, PMul(F, PStrip(F, q), PStrip(F, b)), r))
                        /\ PDeg(F, r) < PDeg(F, b)

(* X^n - 1 *)
ZH(F, n) == [j \in 1..(n + 1) |-> IF j = 1 THEN FNeg(F, F1(F)) ELSE IF j = n + 1 THEN F1(F) ELSE F0(F)]

(* Radix-2 evaluation at 1, w, ..., w^(n-1), n = Len(a) a power of two. *)
RECURSIVE Fft(_, _, _)
Fft(F, a, w) ==
  LET n == Len(a) h == n \div 2 IN
  IF n = 1 THEN a
  ELSE LET w2 == FSq(F, w)
           e == Fft(F, [j \in 1..h |-> a[2 * j - 1]], w2)
           o == Fft(F, [j \in 1..h |-> a[2 * j]], w2)
           ps == FPowers(F, w, h)
       IN [j \in 1..n |-> LET m == ((j - 1) % h) + 1 t == FMul(F, ps[m], o[m])
                          IN IF j <= h THEN FAdd(F, e[m], t) ELSE FSub(F, e[m], t)]
Pad(F, a, n) == [j \in 1..n |-> Co(F, a, j - 1)]
(* Evaluation over the domain generated by w, by definition. *)
EvalOn(F, a, w, n) == LET ps == FPowers(F, w, n) IN [j \in 1..n |-> FPoly(F, a, ps[j])]
IsRoot(F, w, n) == FExpN(F, w, n) = F1(F) /\ (n > 1 => FExpN(F, w, n \div 2) = FNeg(F, F1(F)))

(* The folding coefficients of a Halo opening: s[i] is the product over the
   rounds k of u_k if the matching bit of i is set and of its inverse otherwise,
   the first round matching the most significant bit; g(X) has coefficients s. *)
RECURSIVE HaloSAt(_, _, _, _, _)
HaloSAt(F, us, ui, i, k) ==
  IF k > Len(us) THEN F1(F)
  ELSE FMul(F, IF (i \div (2 ^ (Len(us) - k))) % 2 = 1 THEN us[k] ELSE ui[k], HaloSAt(F, us, ui, i, k + 1))
HaloS(F, us) == LET ui == [k \in 1..Len(us) |-> FInv(F, us[k])]
                IN [i \in 1..(2 ^ Len(us)) |-> HaloSAt(F, us, ui, i - 1, 1)]
RECURSIVE HaloGFrom(_, _, _, _)
HaloGFrom(F, us, xp, k) == IF k = 0 THEN F1(F)
  ELSE FMul(F, FAdd(F, FMul(F, us[k], xp), FInv(F, us[k])), HaloGFrom(F, us, FSq(F, xp), k - 1))
HaloG(F, us, x) == HaloGFrom(F, us, x, Len(us))
=============================================================================
