-------------------------------- MODULE Gates --------------------------------
(* The gates: selection prefixes and constraint polynomials.  G is a record [F, mds, A, zeta]: the field
   of the circuit, Rescue's matrix, and the coefficient and endomorphism constant of the embedded curve.
   c: constants of the row, w, r, b: the wires of the row, the one to its right, and the one below it (all
   counted from one).  A row satisfies a gate iff all the gate's constraints are zero. *)
EXTENDS Fp
LOCAL INSTANCE TLC

GateNames == {"pi", "add", "dbl", "endo", "base4", "buf", "const", "arith", "ra", "rb"}
Prefix(g) == CASE g = "pi"    -> <<1, 0, 1, 0, 0, 1>>
               [] g = "add"   -> <<1, 0, 1, 0, 1>>
               [] g = "dbl"   -> <<1, 0, 1, 1, 1>>
               [] g = "endo"  -> <<1, 1>>
               [] g = "base4" -> <<1, 0, 0, 0>>
               [] g = "buf"   -> <<1, 0, 1, 0, 0, 0>>
               [] g = "const" -> <<1, 0, 1, 1, 0>>
               [] g = "arith" -> <<1, 0, 0, 1>>
               [] g = "ra"    -> <<0, 0>>
               [] g = "rb"    -> <<0, 1>>

Bit(F, x) == FMul(F, x, FSub(F, x, F1(F)))
RECURSIVE Acc4(_, _, _, _)
Acc4(F, a, l, i) == IF i > Len(l) THEN a ELSE Acc4(F, FAdd(F, FMul(F, FNat(F, 4), a), l[i]), l, i + 1)
Four(F, x) == FMul(F, FMul(F, x, FSub(F, x, FNat(F, 1))), FMul(F, FSub(F, x, FNat(F, 2)), FSub(F, x, FNat(F, 3))))
P5(F, x) == FMul(F, x, FSq(F, FSq(F, x)))

Unfiltered(G, g, c, w, r, b) ==
  LET F == G.F
      k == Len(Prefix(g))
      add(x, y) == FAdd(F, x, y)
      sub(x, y) == FSub(F, x, y)
      mul(x, y) == FMul(F, x, y)
      one == F1(F)
      dbl(x) == FAdd(F, x, x)
  IN
  CASE g = "buf" -> <<>>
    [] g = "const" -> <<sub(c[k + 1], w[1])>>
    [] g = "arith" -> <<sub(add(mul(c[k + 1], mul(w[1], w[2])), mul(c[k + 2], w[3])), w[4])>>
    [] g = "pi" -> [j \in 1..3 |-> sub(w[6 + j], r[j])]
    [] g = "base4" -> <<sub(Acc4(F, w[1], SubSeq(w, 3, 9), 1), w[2])>> \o [j \in 1..7 |-> Four(F, w[2 + j])]
    [] g = "ra" -> [j \in 1..8 |-> LET i == (j + 1) \div 2 IN
                      IF j % 2 = 1 THEN sub(P5(F, w[4 + i]), w[i])
                      ELSE sub(add(c[k + i], FInner(F, G.mds[i], SubSeq(w, 5, 8), 1)), r[i])]
    [] g = "rb" -> LET e == [i \in 1..4 |-> P5(F, w[i])] IN
                   [i \in 1..4 |-> sub(add(c[k + i], FInner(F, G.mds[i], e, 1)), r[i])]
    [] g = "add" ->
         \* accumulator (1, 2), addend (5, 6), scalar accumulator 3 to 4, bit 7, inverse 8, slope 9
         LET x3 == sub(sub(FSq(F, w[9]), w[1]), w[5])
             y3 == sub(mul(w[9], sub(w[1], r[1])), w[2])
             pick(s, t) == add(mul(w[7], s), mul(sub(one, w[7]), t))
         IN <<sub(mul(sub(w[2], w[6]), w[8]), w[9]),
              sub(pick(x3, w[1]), r[1]),
              sub(pick(y3, w[2]), r[2]),
              sub(w[4], add(dbl(w[3]), w[7])),
              FNeg(F, Bit(F, w[7])),
              sub(mul(w[8], sub(w[1], w[5])), one)>>
    [] g = "dbl" ->
         <<sub(mul(add(mul(FNat(F, 3), FSq(F, w[1])), G.A), w[5]), w[6]),
           sub(sub(FSq(F, w[6]), dbl(w[1])), w[3]),
           sub(sub(mul(w[6], sub(w[1], w[3])), w[2]), w[4]),
           sub(mul(dbl(w[2]), w[5]), one)>>
    [] g = "endo" ->
         LET m == add(mul(sub(G.zeta, one), w[8]), one)
             sg == sub(dbl(w[7]), one)
             x2 == mul(m, w[5])
             y2 == mul(sg, w[6])
             l == mul(sub(w[2], y2), w[9])
         IN <<sub(sub(sub(FSq(F, l), w[1]), x2), r[1]),
              sub(sub(mul(l, sub(w[1], r[1])), w[2]), r[2]),
              sub(b[3], add(add(mul(FNat(F, 4), w[3]), dbl(w[8])), w[7])),
              sub(b[4], add(dbl(w[4]), mul(sg, m))),
              Bit(F, w[7]),
              Bit(F, w[8]),
              sub(mul(w[9], sub(w[1], x2)), one)>>

RECURSIVE FilterFrom(_, _, _, _)
FilterFrom(F, p, c, i) == IF i > Len(p) THEN F1(F)
  ELSE FMul(F, IF p[i] = 1 THEN c[i] ELSE FSub(F, F1(F), c[i]), FilterFrom(F, p, c, i + 1))
Filter(F, g, c) == FilterFrom(F, Prefix(g), c, 1)
Filtered(G, g, c, w, r, b) == LET f == Filter(G.F, g, c) u == TLCEval(Unfiltered(G, g, c, w, r, b))
                              IN TLCEval([j \in 1..Len(u) |-> FMul(G.F, f, u[j])])

NumConstraints == 8
At(F, s, j) == IF j <= Len(s) THEN s[j] ELSE F0(F)
(* The constraints of all gates are combined position by position. *)
AllConstraints(G, c, w, r, b) ==
  LET F == G.F
      fs == TLCEval([g \in GateNames |-> Filtered(G, g, c, w, r, b)])
  IN [j \in 1..NumConstraints |->
        FSum(F, <<At(F, fs["add"], j), At(F, fs["dbl"], j), At(F, fs["endo"], j), At(F, fs["base4"], j),
                  At(F, fs["pi"], j), At(F, fs["const"], j), At(F, fs["arith"], j), At(F, fs["ra"], j), At(F, fs["rb"], j)>>)]
Holds(F, s) == \A j \in 1..Len(s) : s[j] = F0(F)
=============================================================================
