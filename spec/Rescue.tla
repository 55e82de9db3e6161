------------------------------- MODULE Rescue -------------------------------
(* The Rescue permutation, the hash functions built on it, and the challenger: a duplex sponge.
   A parameter record R has: F the field; alpha and inv, exponents inverse to each other; ks, for every
   round the constants added after its two steps; mds, the matrix. *)
EXTENDS Fp, TLC, Sequences

(* Cauchy matrix: entry (r, c) is 1 / (x_r - y_c) with x_r = w + r, y_c = c. *)
Mds(F, w) == TLCEval([r \in 1..w |-> [c \in 1..w |-> FInv(F, FSub(F, FNat(F, w + r), FNat(F, c)))]])
Rounds(sec, w) == LET n == (sec + 2 * w - 1) \div (2 * w) IN IF n > 10 THEN n ELSE 10

Mix(R, s, k) == TLCEval([j \in 1..Len(s) |-> FAdd(R.F, FInner(R.F, R.mds[j], s, 1), k[j])])
StepA(R, s, k) == Mix(R, TLCEval([j \in 1..Len(s) |-> FExp(R.F, s[j], R.inv)]), k)
StepB(R, s, k) == Mix(R, TLCEval([j \in 1..Len(s) |-> FExp(R.F, s[j], R.alpha)]), k)
RECURSIVE PermFrom(_, _, _)
PermFrom(R, s, i) == IF i > Len(R.ks) THEN s ELSE PermFrom(R, StepB(R, StepA(R, s, R.ks[i][1]), R.ks[i][2]), i + 1)
Perm(R, s) == PermFrom(R, s, 1)

(* The exponents are inverse to each other on the field: alpha * inv = 1 mod p - 1, so that steps A and
   B, and with an invertible matrix the permutation, are bijections. *)
ExpsInverse(R, g) == \A x \in g : FExp(R.F, FExp(R.F, x, R.inv), R.alpha) = x

(* Determinants of square submatrices: the matrix is maximum distance separable iff none is zero. *)
RECURSIVE Det(_, _, _, _, _)
DetTerm(F, m, rs, cs, j) == LET d == FMul(F, m[rs[1]][cs[j]],
                                   Det(F, m, Tail(rs), [i \in 1..(Len(cs) - 1) |-> IF i < j THEN cs[i] ELSE cs[i + 1]], 1))
                            IN IF j % 2 = 1 THEN d ELSE FNeg(F, d)
Det(F, m, rs, cs, j) == IF rs = <<>> THEN F1(F)
                        ELSE IF j > Len(cs) THEN F0(F)
                        ELSE FAdd(F, DetTerm(F, m, rs, cs, j), Det(F, m, rs, cs, j + 1))
RECURSIVE Subseqs(_, _, _)
Subseqs(lo, hi, k) == IF k = 0 THEN {<<>>}
                      ELSE UNION {{<<a>> \o t : t \in Subseqs(a + 1, hi, k - 1)} : a \in lo..hi}
IsMds(F, m) == LET w == Len(m) IN
  \A k \in 1..w : \A rs \in Subseqs(1, w, k), cs \in Subseqs(1, w, k) : Det(F, m, rs, cs, 1) # F0(F)

(* The inverse of a matrix by its minors, and the inverse of the permutation. *)
Without(w, j) == [k \in 1..(w - 1) |-> IF k < j THEN k ELSE k + 1]
MInv(F, m) == LET w == Len(m) all == [k \in 1..w |-> k] d == FInv(F, Det(F, m, all, all, 1))
              IN TLCEval([r \in 1..w |-> [q \in 1..w |->
                    LET x == FMul(F, d, Det(F, m, Without(w, q), Without(w, r), 1)) IN IF (r + q) % 2 = 0 THEN x ELSE FNeg(F, x)]])
UnMix(R, mi, s, k) == LET t == TLCEval([j \in 1..Len(s) |-> FSub(R.F, s[j], k[j])])
                      IN TLCEval([j \in 1..Len(s) |-> FInner(R.F, mi[j], t, 1)])
RECURSIVE UnPermFrom(_, _, _, _)
UnPermFrom(R, mi, s, i) == IF i = 0 THEN s
  ELSE LET b == UnMix(R, mi, s, R.ks[i][2])
           a == UnMix(R, mi, TLCEval([j \in 1..Len(b) |-> FExp(R.F, b[j], R.inv)]), R.ks[i][1])
       IN UnPermFrom(R, mi, TLCEval([j \in 1..Len(a) |-> FExp(R.F, a[j], R.alpha)]), i - 1)
PermInv(R, s) == UnPermFrom(R, MInv(R.F, R.mds), s, Len(R.ks))

RAddOp(R, x, y) == FAdd(R.F, x, y)
Zero4(R) == <<F0(R.F), F0(R.F), F0(R.F), F0(R.F)>>
INSTANCE Sponge WITH PermOp <- Perm, AddOp <- RAddOp, ZeroOp <- Zero4
=============================================================================
