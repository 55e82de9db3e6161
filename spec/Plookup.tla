------------------------------- MODULE Plookup -------------------------------
(* The lookup argument from the verifier's side.  A proof is [cs, os, L, R, G, sr, z1, z2, n]: commitments to
   f, t, h1, h2, z and the quotient, their openings at zeta and zeta times the root, and the opening proof.
   The list f of n values and the table t of n+1 live on the (n+1)-th roots of unity; h1 and h2 are the halves,
   sharing an element, of f and t sorted by t; z is the running product. *)
EXTENDS Plonk

PadTable(t, m) == t \o [j \in 1..(m - Len(t)) |-> t[Len(t)]]
RECURSIVE IsPow2(_)
IsPow2(n) == n = 1 \/ (n > 1 /\ n % 2 = 0 /\ IsPow2(n \div 2))
LShapeOk(X, t, pf) ==
  /\ Len(t) > 0
  /\ pf.n > 0 /\ IsPow2(pf.n + 1) /\ Len(t) <= pf.n + 1
  /\ Len(pf.L) = Log2(2 * (pf.n + 1)) /\ Len(pf.R) = Len(pf.L)
LPointsOk(X, pf) == \A P \in {pf.cs[j] : j \in 1..6} \cup {pf.L[j] : j \in 1..Len(pf.L)} \cup {pf.R[j] : j \in 1..Len(pf.R)} \cup {pf.G, pf.sr} :
                      IsPoint(X.E, P)

LInterpolate(F, vals, w) ==
  LET n == Len(vals) ws == FPowers(F, FInv(F, w), n) ni == FInv(F, FNat(F, n))
  IN TLCEval([j \in 1..n |-> FMul(F, ni, FPoly(F, vals, ws[j]))])
LTableOk(X, t, pf, root) == pf.cs[2] = CMsm(X.E, LInterpolate(X.E.S, PadTable(t, pf.n + 1), root), SubSeq(X.gs, 1, pf.n + 1))

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
LTranscript(X, pf) ==
  LET B == X.E.F S == X.E.S R == X.R
      bad == [ok |-> FALSE]
      opens == Flat(pf.os)
      c1 == Challenges(R, Observe(R, Ch0(R), PtsEls(SubSeq(pf.cs, 1, 4))), 2)
      c2 == Challenges(R, Observe(R, c1[2], PtEls(pf.cs[5])), 1)
      c3 == Challenges(R, Observe(R, c2[2], PtEls(pf.cs[6])), 1)
      c4 == Challenges(R, Observe(R, c3[2], opens), 3)
      rs == RoundsFrom(X, c4[2], pf, 1)
      c5 == Challenges(R, Observe(R, rs.ch, PtEls(pf.sr)), 1)
  IN IF ~AllFit(B, opens) THEN bad
     ELSE IF ~AllFit(S, c1[1] \o c2[1] \o c3[1] \o c4[1]) THEN bad
     ELSE IF ~rs.ok THEN bad
     ELSE IF ~AllFit(S, c5[1]) THEN bad
     ELSE [ok |-> TRUE, beta |-> c1[1][1], gamma |-> c1[1][2], alpha |-> c2[1][1], zeta |-> c3[1][1],
           v |-> c4[1][1], u |-> c4[1][2], us |-> c4[1][3], sq |-> rs.sq, sch |-> c5[1][1]]

(* What vanishes on the domain, from values a at x and b at x times the root. *)
Basis(F, m, wi, x) == LagrangeAt(F, x, m, wi)
LTerms(F, m, w, be, ga, x, a, b) ==
  LET wl == Pow(F, w, m - 1) b1 == FAdd(F, be, F1(F)) gb == FMul(F, ga, b1)
      pair(p, q) == FAdd(F, FAdd(F, gb, p), FMul(F, be, q))
      lhs == FMul(F, FMul(F, a[5], b1), FMul(F, FAdd(F, ga, a[1]), pair(a[2], b[2])))
      rhs == FMul(F, b[5], FMul(F, pair(a[3], b[3]), pair(a[4], b[4])))
  IN <<FMul(F, Basis(F, m, F1(F), x), FSub(F, a[5], F1(F))),
       FMul(F, FSub(F, x, wl), FSub(F, lhs, rhs)),
       FMul(F, Basis(F, m, wl, x), FSub(F, a[3], b[4])),
       FMul(F, Basis(F, m, wl, x), FSub(F, a[5], F1(F)))>>
Side(os, k) == [j \in 1..Len(os) |-> os[j][k]]
LQuotientOk(X, pf, ch, root) ==
  LET F == X.E.S m == pf.n + 1 a == Side(pf.os, 1) b == Side(pf.os, 2) IN
  FPoly(F, LTerms(F, m, root, ch.beta, ch.gamma, ch.zeta, a, b), ch.alpha)
    = FMul(F, FSub(F, Pow(F, ch.zeta, m), F1(F)), a[6])

LIpaOk(X, pf, ch, us, root) ==
  LET E == X.E F == E.S
      ps == FPowers(F, ch.u, 6)
      sc == TLCEval([j \in 1..6 |-> NOf(X, ps[j], TranscriptBits)])
      val == FPoly(F, [k \in 1..2 |-> FInner(F, Side(pf.os, k), sc, 1)], ch.v)
      b == FAdd(F, HaloG(F, us, ch.zeta), FMul(F, ch.v, HaloG(F, us, FMul(F, ch.zeta, root))))
      H == X.gs[2 * pf.n + 3]
      U == CMul(E, NOf(X, ch.us, TranscriptBits), X.gs[2 * pf.n + 4])
      Q == CAdd(E, CMsm(E, sc \o ch.sq \o [k \in 1..Len(us) |-> FInv(F, ch.sq[k])], pf.cs \o pf.L \o pf.R), CMul(E, val, U))
  IN CAdd(E, CMul(E, ch.sch, Q), pf.sr) = CMsm(E, <<pf.z1, FMul(F, pf.z1, b), pf.z2>>, <<pf.G, U, H>>)

LReason(X, t, pf, us, root, ch) ==
  IF ~LShapeOk(X, t, pf) THEN "shape"
  ELSE IF ~LPointsOk(X, pf) THEN "points"
  ELSE IF ~LTableOk(X, t, pf, root) THEN "table"
  ELSE IF ~ch.ok THEN "transcript"
  ELSE IF ~LQuotientOk(X, pf, ch, root) THEN "quotient"
  ELSE IF ~LIpaOk(X, pf, ch, us, root) THEN "opening"
  ELSE IF ~FoldedOk(X, 2 * (pf.n + 1), pf.G, us) THEN "final point"
  ELSE "accept"
=============================================================================
