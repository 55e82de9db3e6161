----------------------------- MODULE HashCurve -----------------------------
(* Deriving points from seeds by trying abscissae until one belongs to the curve. *)
EXTENDS Curve, TLC
LOCAL BN == INSTANCE BigNat

RECURSIVE Bits8(_, _)
Bits8(d, n) == IF n = 0 THEN <<>> ELSE <<d % 2>> \o Bits8(d \div 2, n - 1)
RECURSIVE BytesBits(_, _, _)
BytesBits(bs, i, n) == IF i > n THEN <<>> ELSE Bits8(bs[i], 8) \o BytesBits(bs, i + 1, n)
RECURSIVE Num(_, _, _)
Num(bits, i, n) == IF i > n THEN 0 ELSE bits[i] + 2 * Num(bits, i + 1, n)
(* The little-endian number of the first n bits. *)
BitsNat(F, bits, n) == IF ~F.big THEN Num(bits, 1, n)
  ELSE BN!Strip([j \in 1..((n + 11) \div 12) |-> Num(bits, 12 * (j - 1) + 1, IF 12 * j < n THEN 12 * j ELSE n)])

(* A number below 2^bits cut from uniform bytes, whose most significant byte is shifted, not masked. *)
Cut(F, bits, bytes, h) ==
  LET low == 8 * (bytes - 1) all == TLCEval(BytesBits(h, 1, bytes))
  IN BitsNat(F, SubSeq(all, 1, low) \o SubSeq(all, low + 8 * bytes - bits + 1, 8 * bytes), bits)
Below(F, x) == IF F.big THEN BN!Cmp(x, F.p) < 0 ELSE x < F.p

Rhs(E, x) == FAdd(E.F, FAdd(E.F, FMul(E.F, x, FSq(E.F, x)), FMul(E.F, E.A, x)), E.B)
(* P is a point with the first abscissa of the sequence which belongs to the curve. *)
FirstOf(E, xs, P) == \E k \in 1..Len(xs) :
  /\ P # <<>> /\ Len(P) = 2 /\ P[1] = xs[k] /\ IsPoint(E, P)
  /\ \A j \in 1..(k - 1) : ~FIsSquare(E.F, Rhs(E, xs[j]))
(* hs[i][j]: the j-th attempt to hash the seed with counter i to the field. *)
RECURSIVE FirstCut(_, _, _, _, _)
FirstCut(F, bits, bytes, h, j) == LET x == Cut(F, bits, bytes, h[j]) IN IF Below(F, x) THEN x ELSE FirstCut(F, bits, bytes, h, j + 1)
Abscissae(E, bits, bytes, hs) == TLCEval([i \in 1..Len(hs) |-> FirstCut(E.F, bits, bytes, hs[i], 1)])
=============================================================================
