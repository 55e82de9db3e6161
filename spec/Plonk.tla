-------------------------------- MODULE Plonk --------------------------------
(* The proof system from the verifier's side: which challenges the messages of a proof give, and which
   proofs are accepted.
   X, the setting, is a record:
     E    the curve (E.F base field, E.S scalar field), zetas its endomorphism's scalar
     R    the parameters of Rescue over the base field for the transcript
     G    the gates' parameters, over the scalar field
     ks   the coset shifts of the six routed wires
     gs   the sequence of derived points (generator i is gs[i + 1])
   A key vk is [cc, cs, n, npi, off, sec, root]; a proof is [cw, cz, ct, cq, os, L, R, G, sr, z1, z2], os being
   the three opening sets [c, s, w, z, t, o, q]; an old proof is [g, us]. *)
EXTENDS Rescue, Gates, Poly, Curve
LOCAL BNm == INSTANCE BigNat

NumWires == 9
NumRouted == 6
NumConsts == 6
QuotientChunks == 7
GridWidth == 65
TranscriptBits == 128

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Concat3(a, b, c) == a \o b \o c

(* ------------------------------------------------------------------ shape *)
OpeningVec(o) == o.c \o o.s \o o.w \o <<o.z>> \o o.t \o o.o \o <<o.q>>
ShapeOk(vk, pis, pf, old) ==
  /\ Len(pis) = vk.npi
  /\ Len(pf.cw) = NumWires
  /\ Len(pf.ct) = QuotientChunks
  /\ \A j \in 1..3 : LET o == pf.os[j] IN
       /\ Len(o.c) = NumConsts /\ Len(o.s) = NumRouted /\ Len(o.w) = NumWires
       /\ Len(o.t) = QuotientChunks /\ Len(o.o) = Len(old)
  /\ Len(pf.L) = Log2(vk.n) /\ Len(pf.R) = Log2(vk.n)
PointsOk(X, pf, old) ==
  /\ \A P \in {pf.cw[j] : j \in 1..Len(pf.cw)} \cup {pf.ct[j] : j \in 1..Len(pf.ct)} \cup {pf.cz, pf.cq, pf.G, pf.sr}
              \cup {pf.L[j] : j \in 1..Len(pf.L)} \cup {pf.R[j] : j \in 1..Len(pf.R)}
              \cup {old[j].g : j \in 1..Len(old)} : IsPoint(X.E, P)
OldOk(X, old) == \A j \in 1..Len(old) : \A k \in 1..Len(old[j].us) : old[j].us[k] # F0(X.E.S)

(* -------------------------------------------------------------- transcript *)
PtEls(P) == IF P = <<>> THEN <<<<>>, <<>>>> ELSE P      \* the point at infinity is observed as (0, 0)
RECURSIVE PtsEls(_)
PtsEls(ps) == IF ps = <<>> THEN <<>> ELSE PtEls(ps[1]) \o PtsEls(Tail(ps))
(* an old proof is its final point and its challenges *)
RECURSIVE OldEls(_, _)
OldEls(old, j) == IF j > Len(old) THEN <<>> ELSE PtEls(old[j].g) \o old[j].us \o OldEls(old, j + 1)
(* A number below one modulus read as an element of the other field; -1 stands for failure. *)
Fits(F, x) == FLt(F, x, F.p)
AllFit(F, xs) == \A j \in 1..Len(xs) : Fits(F, xs[j])

(* n applied to the low bits of a number. *)
NumBits(x, k) == [j \in 1..k |-> BNm!Bit(x, j - 1)]
NOf(X, x, k) == HaloN(X.E.S, X.zetas, NumBits(x, k))

(* Folding rounds: for each, n(r) of the challenge r drawn after L and R of the round. *)
RECURSIVE RoundsFrom(_, _, _, _)
RoundsFrom(X, ch, pf, j) ==
  IF j > Len(pf.L) THEN [ok |-> TRUE, sq |-> <<>>, ch |-> ch]
  ELSE LET a == Challenge(X.R, Observe(X.R, ch, PtEls(pf.L[j]) \o PtEls(pf.R[j])))
           n == NOf(X, a[1], TranscriptBits)
       IN IF ~Fits(X.E.S, a[1]) \/ ~FIsSquare(X.E.S, n) THEN [ok |-> FALSE, sq |-> <<>>, ch |-> ch]
          ELSE LET t == RoundsFrom(X, a[2], pf, j + 1)
               IN [t EXCEPT !.sq = <<n>> \o @]

(* The challenges: beta, gamma, alpha, zeta, v, u, u_scaling, squares of the folding challenges, schnorr. *)
Transcript(X, pis, pf, old) ==
  LET B == X.E.F S == X.E.S R == X.R
      bad == [ok |-> FALSE]
      opens == OpeningVec(pf.os[1]) \o OpeningVec(pf.os[2]) \o OpeningVec(pf.os[3])
      c1 == Challenges(R, Observe(R, Ch0(R), pis \o PtsEls(pf.cw)), 2)
      c2 == Challenges(R, Observe(R, c1[2], PtEls(pf.cz)), 1)
      c3 == Challenges(R, Observe(R, c2[2], PtsEls(pf.ct) \o PtEls(pf.cq) \o OldEls(old, 1)), 1)
      c4 == Challenges(R, Observe(R, c3[2], opens), 3)
      rs == RoundsFrom(X, c4[2], pf, 1)
      c5 == Challenges(R, Observe(R, rs.ch, PtEls(pf.sr)), 1)
  IN IF ~AllFit(B, pis) THEN bad
     ELSE IF ~AllFit(B, opens) THEN bad
     ELSE IF \E j \in 1..Len(old) : ~AllFit(B, old[j].us) THEN bad
     ELSE IF ~AllFit(S, c1[1] \o c2[1] \o c3[1] \o c4[1]) THEN bad
     ELSE IF ~rs.ok THEN bad
     ELSE IF ~AllFit(S, c5[1]) THEN bad
     ELSE [ok |-> TRUE, beta |-> c1[1][1], gamma |-> c1[1][2], alpha |-> c2[1][1], zeta |-> c3[1][1],
           v |-> c4[1][1], u |-> c4[1][2], us |-> c4[1][3], sq |-> rs.sq, sch |-> c5[1][1]]

(* -------------------------------------------------------------- identities *)
Pow(F, x, n) == FExpN(F, x, n)
(* value of the first Lagrange basis polynomial of the n-th roots of unity, at x # 1 *)
L1(F, x, n) == FDiv(F, FSub(F, Pow(F, x, n), F1(F)), FMul(F, FNat(F, n), FSub(F, x, F1(F))))
RECURSIVE ProdFrom(_, _, _)
ProdFrom(F, s, i) == IF i > Len(s) THEN F1(F) ELSE FMul(F, s[i], ProdFrom(F, s, i + 1))

VanishingTerms(X, n, ch, os) ==
  LET F == X.E.S o == os[1]
      zx == o.z zg == os[2].z
      f == ProdFrom(F, [j \in 1..NumRouted |-> FAdd(F, FAdd(F, o.w[j], FMul(F, ch.beta, FMul(F, X.ks[j], ch.zeta))), ch.gamma)], 1)
      g == ProdFrom(F, [j \in 1..NumRouted |-> FAdd(F, FAdd(F, o.w[j], FMul(F, ch.beta, o.s[j])), ch.gamma)], 1)
  IN <<FMul(F, L1(F, ch.zeta, n), FSub(F, zx, F1(F))),
       FSub(F, FMul(F, f, zx), FMul(F, g, zg))>>
     \o AllConstraints(X.G, o.c, o.w, os[2].w, os[3].w)
QuotientOk(X, n, ch, os) ==
  LET F == X.E.S
      zn == Pow(F, ch.zeta, n)
  IN FPoly(F, VanishingTerms(X, n, ch, os), ch.alpha)
       = FMul(F, FSub(F, zn, F1(F)), FPoly(F, os[1].t, zn))

(* Public inputs sit, nine to a row, in every second row from row off on.  With wires combined by powers of
   alpha, the wire polynomials minus the interpolation of the claimed inputs vanish on those rows. *)
NumPiGates(npi) == (npi + NumWires - 1) \div NumWires
PiRow(F, alpha, pis, i) == FPoly(F, [j \in 1..NumWires |-> LET k == NumWires * i + j IN IF k <= Len(pis) THEN pis[k] ELSE F0(F)], alpha)
(* value at x of the i-th Lagrange basis polynomial (i from 0): w^i (x^n - 1) / (n (x - w^i)) *)
LagrangeAt(F, x, n, wi) == FDiv(F, FMul(F, wi, FSub(F, Pow(F, x, n), F1(F))), FMul(F, FNat(F, n), FSub(F, x, wi)))
PiValue(F, pis, alpha, n, off, w, x) ==
  FSum(F, [i \in 1..NumPiGates(Len(pis)) |->
             FMul(F, PiRow(F, alpha, pis, i - 1), LagrangeAt(F, x, n, Pow(F, w, off + 2 * (i - 1))))])
PiOk(X, vk, pis, ch, os) ==
  LET F == X.E.S
      num == FSub(F, FPoly(F, os[1].w, ch.alpha), PiValue(F, pis, ch.alpha, vk.n, vk.off, vk.root, ch.zeta))
      den == ProdFrom(F, [i \in 1..NumPiGates(vk.npi) |-> FSub(F, ch.zeta, Pow(F, vk.root, vk.off + 2 * (i - 1)))], 1)
  IN num = FMul(F, os[1].q, den)

(* Old proofs: the polynomial of an old proof's folding challenges takes the opened value at zeta. *)
OldOpeningsOk(X, old, ch, os) == \A j \in 1..Len(old) : HaloG(X.E.S, old[j].us, ch.zeta) = os[1].o[j]

(* ------------------------------------------------- inner-product argument *)
OpeningPoints(X, vk, zeta) == LET F == X.E.S IN <<zeta, FMul(F, zeta, vk.root), FMul(F, zeta, Pow(F, vk.root, GridWidth))>>
AllCommitments(vk, pf, old) == vk.cc \o vk.cs \o pf.cw \o <<pf.cz>> \o pf.ct \o [j \in 1..Len(old) |-> old[j].g] \o <<pf.cq>>
(* us: the folding challenges, square roots of ch.sq *)
IpaOk(X, vk, pf, old, ch, us) ==
  LET E == X.E F == E.S
      cs == AllCommitments(vk, pf, old)
      ps == FPowers(F, ch.u, Len(cs))
      sc == [j \in 1..Len(cs) |-> NOf(X, ps[j], vk.sec)]
      val == FPoly(F, [k \in 1..3 |-> FInner(F, OpeningVec(pf.os[k]), sc, 1)], ch.v)
      zs == OpeningPoints(X, vk, ch.zeta)
      b == FPoly(F, [k \in 1..3 |-> HaloG(F, us, zs[k])], ch.v)
      H == X.gs[vk.n + 1]
      U == CMul(E, NOf(X, ch.us, vk.sec), X.gs[vk.n + 2])
      Q == CAdd(E, CMsm(E, sc \o ch.sq \o [k \in 1..Len(us) |-> FInv(F, ch.sq[k])], cs \o pf.L \o pf.R), CMul(E, val, U))
  IN CAdd(E, CMul(E, ch.sch, Q), pf.sr)
       = CMsm(E, <<pf.z1, FMul(F, pf.z1, b), pf.z2>>, <<pf.G, U, H>>)
FoldedOk(X, n, G, us) == G = CMsm(X.E, HaloS(X.E.S, us), SubSeq(X.gs, 1, n))

RootsOf(F, us, sq) == Len(us) = Len(sq) /\ \A k \in 1..Len(us) : FSq(F, us[k]) = sq[k]

(* Why a proof is rejected, or "accept".  us: the folding challenges claimed, which are checked against the
   transcript (both square roots of each are the transcript's challenge); ch: the challenges. *)
ReasonCh(X, vk, pis, pf, old, us, deep, ch) ==
  IF ~ShapeOk(vk, pis, pf, old) THEN "shape"
  ELSE IF ~PointsOk(X, pf, old) THEN "points"
  ELSE IF ~OldOk(X, old) THEN "old"
  ELSE IF ~ch.ok THEN "transcript"
  ELSE IF ~OldOpeningsOk(X, old, ch, pf.os) THEN "old opening"
  ELSE IF ~QuotientOk(X, vk.n, ch, pf.os) THEN "quotient"
  ELSE IF ~PiOk(X, vk, pis, ch, pf.os) THEN "public inputs"
  ELSE IF ~IpaOk(X, vk, pf, old, ch, us) THEN "opening"
  ELSE IF deep /\ ~FoldedOk(X, vk.n, pf.G, us) THEN "final point"
  ELSE "accept"
Reason(X, vk, pis, pf, old, us, deep) == ReasonCh(X, vk, pis, pf, old, us, deep, Transcript(X, pis, pf, old))
=============================================================================
