------------------------------- MODULE GateSem -------------------------------
(* What each gate stands for, stated without its polynomials: Sem(G, g, c, w, r, b) says that the row's
   wires w, the wires r of the row to its right and b of the row below are an instance of the gate's
   operation under the row's constants c.  GateModel checks that this is when the polynomials of Gates vanish. *)
EXTENDS Gates
LOCAL SmallNat(F, x, n) == \E j \in 0..n : x = FNat(F, j)
LOCAL IsBit(F, x) == x = F0(F) \/ x = F1(F)
(* third intersection, negated, of the line through two points of different abscissae / the tangent *)
LOCAL Third(F, x1, y1, x2, l) == LET x3 == FSub(F, FSub(F, FSq(F, l), x1), x2)
                                 IN <<x3, FSub(F, FMul(F, l, FSub(F, x1, x3)), y1)>>
LOCAL Chord(F, P, Q) == FDiv(F, FSub(F, Q[2], P[2]), FSub(F, Q[1], P[1]))
RECURSIVE Fold4(_, _, _, _)
Fold4(F, a, s, i) == IF i > Len(s) THEN a ELSE Fold4(F, FAdd(F, FMul(F, a, FNat(F, 4)), s[i]), s, i + 1)
(* the point an endomorphism step adds: the addend, its first coordinate scaled by zeta if the second bit
   is set, negated unless the first one is *)
LOCAL EndoPoint(G, P, b0, b1) == LET F == G.F IN
  <<IF b1 = F1(F) THEN FMul(F, G.zeta, P[1]) ELSE P[1], IF b0 = F1(F) THEN P[2] ELSE FNeg(F, P[2])>>

Sem(G, g, c, w, r, b) ==
  LET F == G.F
      cfg == SubSeq(c, Len(Prefix(g)) + 1, Len(c))
      fifth(x) == FExpN(F, x, 5)
      affine(v) == \A i \in 1..4 : r[i] = FAdd(F, cfg[i], FInner(F, G.mds[i], v, 1))
  IN
  CASE g = "buf" -> TRUE
    [] g = "const" -> w[1] = cfg[1]
    [] g = "arith" -> w[4] = FAdd(F, FMul(F, FMul(F, cfg[1], w[1]), w[2]), FMul(F, cfg[2], w[3]))
    [] g = "pi" -> SubSeq(r, 1, 3) = SubSeq(w, 7, 9)
    [] g = "base4" -> /\ \A j \in 3..9 : SmallNat(F, w[j], 3)
                      /\ w[2] = Fold4(F, w[1], SubSeq(w, 3, 9), 1)
    [] g = "ra" -> /\ \A i \in 1..4 : fifth(w[4 + i]) = w[i]
                   /\ affine(SubSeq(w, 5, 8))
    [] g = "rb" -> affine([i \in 1..4 |-> fifth(w[i])])
    [] g = "add" -> /\ w[1] # w[5]
                    /\ IsBit(F, w[7])
                    /\ w[4] = FAdd(F, FAdd(F, w[3], w[3]), w[7])
                    /\ w[8] = FInv(F, FSub(F, w[1], w[5]))
                    /\ w[9] = Chord(F, <<w[1], w[2]>>, <<w[5], w[6]>>)
                    /\ <<r[1], r[2]>> = IF w[7] = F1(F) THEN Third(F, w[1], w[2], w[5], w[9]) ELSE <<w[1], w[2]>>
    [] g = "dbl" -> LET y2 == FAdd(F, w[2], w[2]) IN
                    /\ y2 # F0(F)
                    /\ w[5] = FInv(F, y2)
                    /\ w[6] = FDiv(F, FAdd(F, FMul(F, FNat(F, 3), FSq(F, w[1])), G.A), y2)
                    /\ <<w[3], w[4]>> = Third(F, w[1], w[2], w[1], w[6])
    [] g = "endo" -> /\ IsBit(F, w[7]) /\ IsBit(F, w[8])
                     /\ LET S == EndoPoint(G, <<w[5], w[6]>>, w[7], w[8])
                            sgn == IF w[7] = F1(F) THEN F1(F) ELSE FNeg(F, F1(F))
                            limb == IF w[8] = F1(F) THEN FMul(F, sgn, G.zeta) ELSE sgn
                        IN /\ w[1] # S[1]
                           /\ w[9] = FInv(F, FSub(F, w[1], S[1]))
                           /\ <<r[1], r[2]>> = Third(F, w[1], w[2], S[1], Chord(F, <<w[1], w[2]>>, S))
                           /\ b[3] = FAdd(F, FMul(F, FNat(F, 4), w[3]), FAdd(F, FAdd(F, w[8], w[8]), w[7]))
                           /\ b[4] = FAdd(F, FAdd(F, w[4], w[4]), limb)
=============================================================================
