-------------------------------- MODULE CurvePure --------------------------------
(* Short Weierstrass curves y^2 = x^3 + A x + B.  A curve is a record [F, A, B, S]: base field,
   coefficients and scalar field (S is used for the size of scalars only).  The point at infinity is
   <<>>, any other point <<x, y>>; a projective point <<x, y, z>> stands for <<x/z, y/z>>. *)
EXTENDS FpPure
LOCAL BN == INSTANCE BigNat

OnCurve(E, P) == P = <<>> \/ FSq(E.F, P[2]) = FAdd(E.F, FAdd(E.F, FMul(E.F, P[1], FSq(E.F, P[1])), FMul(E.F, E.A, P[1])), E.B)
IsPoint(E, P) == \/ P = <<>>
                 \/ Len(P) = 2 /\ InF(E.F, P[1]) /\ InF(E.F, P[2]) /\ OnCurve(E, P)

Slope(E, l, P, Q) == LET x == FSub(E.F, FSub(E.F, FSq(E.F, l), P[1]), Q[1])
                     IN <<x, FSub(E.F, FMul(E.F, l, FSub(E.F, P[1], x)), P[2])>>

CNeg(E, P) == IF P = <<>> THEN P ELSE <<P[1], FNeg(E.F, P[2])>>
CDbl(E, P) == IF P = <<>> \/ P[2] = F0(E.F) THEN <<>>
              ELSE Slope(E, FDiv(E.F, FAdd(E.F, FMul(E.F, FNat(E.F, 3), FSq(E.F, P[1])), E.A),
                                      FMul(E.F, FNat(E.F, 2), P[2])), P, P)
CAdd(E, P, Q) == IF P = <<>> THEN Q ELSE IF Q = <<>> THEN P
                 ELSE IF P[1] = Q[1] THEN (IF P[2] = Q[2] THEN CDbl(E, P) ELSE <<>>)
                 ELSE Slope(E, FDiv(E.F, FSub(E.F, Q[2], P[2]), FSub(E.F, Q[1], P[1])), P, Q)
CSub(E, P, Q) == CAdd(E, P, CNeg(E, Q))

RECURSIVE CMulBits(_, _, _, _)
CMulBits(E, bs, i, P) == IF i > Len(bs) \/ P = <<>> THEN <<>>
                         ELSE LET R == CMulBits(E, bs, i + 1, CDbl(E, P))
                              IN IF bs[i] = 1 THEN CAdd(E, P, R) ELSE R
NatBits(n) == BN!Bits(BN!FromNat(n))
ScalarBits(G, s) == IF G.big THEN BN!Bits(s) ELSE NatBits(s)
(* s: a natural in the representation of the field G (no reduction is applied). *)
CMulG(E, G, s, P) == CMulBits(E, ScalarBits(G, s), 1, P)
CMul(E, s, P) == CMulG(E, E.S, s, P)

RECURSIVE CSumFrom(_, _, _)
CSumFrom(E, ps, i) == IF i > Len(ps) THEN <<>> ELSE CAdd(E, ps[i], CSumFrom(E, ps, i + 1))
CSum(E, ps) == CSumFrom(E, ps, 1)
RECURSIVE CMsmFrom(_, _, _, _)
CMsmFrom(E, ss, ps, i) == IF i > Len(ps) THEN <<>>
                          ELSE CAdd(E, CMul(E, ss[i], ps[i]), CMsmFrom(E, ss, ps, i + 1))
CMsm(E, ss, ps) == CMsmFrom(E, ss, ps, 1)

(* The injective function n of the Halo endomorphism (Halo paper, Algorithm 2, starting at zero):
   bits are taken in pairs <<lo, hi>>, lo giving the sign and hi choosing the zeta component. *)
RECURSIVE HaloNFrom(_, _, _, _, _)
HaloNFrom(S, bits, i, a, b) ==
  IF i > Len(bits) THEN <<a, b>>
  ELSE LET s == IF bits[i] = 1 THEN F1(S) ELSE FNeg(S, F1(S)) IN
       HaloNFrom(S, bits, i + 2,
                 FAdd(S, FAdd(S, a, a), IF bits[i + 1] = 1 THEN s ELSE F0(S)),
                 FAdd(S, FAdd(S, b, b), IF bits[i + 1] = 1 THEN F0(S) ELSE s))
HaloN(S, zetas, bits) == LET ab == HaloNFrom(S, bits, 1, F0(S), F0(S)) IN FAdd(S, FMul(S, ab[1], zetas), ab[2])

(* The affine point of a projective one. *)
Aff(E, p) == IF p = <<>> THEN <<>> ELSE LET i == FInv(E.F, p[3]) IN <<FMul(E.F, p[1], i), FMul(E.F, p[2], i)>>
(* p is a representation of the affine point P. *)
Rep(E, p, P) == IF P = <<>> THEN p = <<>>
                ELSE /\ Len(p) = 3
                     /\ \A j \in 1..3 : InF(E.F, p[j])
                     /\ p[3] # F0(E.F)
                     /\ p[1] = FMul(E.F, P[1], p[3])
                     /\ p[2] = FMul(E.F, P[2], p[3])
=============================================================================
