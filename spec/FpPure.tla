--------------------------------- MODULE FpPure ---------------------------------
(* Prime fields.  A field is a record [big, p]: elements are naturals below p
   when big = FALSE (p below 2^15), and BigNat digit sequences otherwise. *)
EXTENDS Naturals, Sequences
LOCAL BN == INSTANCE BigNat

F0(F) == IF F.big THEN <<>> ELSE 0
F1(F) == IF F.big THEN <<1>> ELSE 1
FAdd(F, a, b) == IF F.big THEN BN!AddMod(a, b, F.p) ELSE (a + b) % F.p
FSub(F, a, b) == IF F.big THEN BN!SubMod(a, b, F.p) ELSE (a + F.p - b) % F.p
FNeg(F, a) == FSub(F, F0(F), a)
FMul(F, a, b) == IF F.big THEN BN!MulMod(a, b, F.p) ELSE (a * b) % F.p
FSq(F, a) == FMul(F, a, a)

(* The element congruent to a small natural / a BigNat. *)
FNat(F, n) == IF F.big THEN BN!Mod(BN!FromNat(n), F.p) ELSE n % F.p

RECURSIVE PowSmall(_, _, _)
PowSmall(a, e, p) == IF e = 0 THEN 1 % p
                     ELSE LET h == PowSmall((a * a) % p, e \div 2, p)
                          IN IF e % 2 = 1 THEN (a * h) % p ELSE h
(* e: natural in the same representation as the elements. *)
FExp(F, a, e) == IF F.big THEN BN!PowMod(a, e, F.p) ELSE PowSmall(a, e, F.p)
FExpN(F, a, n) == FExp(F, a, IF F.big THEN BN!FromNat(n) ELSE n)
(* Inverse of a nonzero element. *)
FInv(F, a) == IF F.big THEN BN!InvMod(a, F.p) ELSE PowSmall(a, F.p - 2, F.p)
FDiv(F, a, b) == FMul(F, a, FInv(F, b))

(* Membership: canonical and below the modulus. *)
InF(F, a) == IF F.big
             THEN /\ \A i \in 1..Len(a) : a[i] \in 0..4095
                  /\ (a = <<>> \/ a[Len(a)] # 0)
                  /\ BN!Cmp(a, F.p) < 0
             ELSE a \in 0..(F.p - 1)
(* Naturals as field representation: comparison, parity, bits. *)
FLt(F, a, b) == IF F.big THEN BN!Cmp(a, b) < 0 ELSE a < b
FBit(F, a, i) == IF F.big THEN BN!Bit(a, i) ELSE (IF i > 30 THEN 0 ELSE (a \div (2 ^ i)) % 2)
FHalf(F) == IF F.big THEN BN!Div(BN!Sub(F.p, <<1>>), <<2>>) ELSE (F.p - 1) \div 2
(* Euler's criterion. *)
FIsSquare(F, a) == a = F0(F) \/ FExp(F, a, FHalf(F)) = F1(F)

RECURSIVE FSum(_, _)
FSum(F, s) == IF s = <<>> THEN F0(F) ELSE FAdd(F, s[1], FSum(F, Tail(s)))
RECURSIVE FInner(_, _, _, _)
FInner(F, a, b, i) == IF i > Len(a) THEN F0(F)
                      ELSE FAdd(F, FMul(F, a[i], b[i]), FInner(F, a, b, i + 1))
RECURSIVE FPowersFrom(_, _, _, _)
FPowersFrom(F, x, n, c) == IF n = 0 THEN <<>> ELSE <<c>> \o FPowersFrom(F, x, n - 1, FMul(F, c, x))
(* 1, x, ..., x^(n-1) *)
FPowers(F, x, n) == FPowersFrom(F, x, n, F1(F))
(* sum_i s[i] a^(i-1) *)
RECURSIVE FHorner(_, _, _, _)
FHorner(F, s, a, i) == IF i > Len(s) THEN F0(F) ELSE FAdd(F, s[i], FMul(F, a, FHorner(F, s, a, i + 1)))
FPoly(F, s, a) == FHorner(F, s, a, 1)
=============================================================================
