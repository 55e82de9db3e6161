-------------------------------- MODULE Codec --------------------------------
(* The byte encodings of field elements and points, and streams of them.  A codec is a record
   [E, base, n, m]: the curve, the number of values of a byte, and the bytes of an element of the base
   and of the scalar field.  Items are <<"f", x>> (base field), <<"s", x>> (scalar field) and <<"p", P>>. *)
EXTENDS Curve, TLC
LOCAL BN == INSTANCE BigNat

RECURSIVE NatBytes(_, _, _)
NatBytes(b, x, n) == IF n = 0 THEN <<>> ELSE <<x % b>> \o NatBytes(b, x \div b, n - 1)
RECURSIVE BytesNat(_, _, _)
BytesNat(b, s, i) == IF i > Len(s) THEN 0 ELSE s[i] + b * BytesNat(b, s, i + 1)
(* Big numbers: two digits of 12 bits are three bytes. *)
Dig(x, k) == IF k <= Len(x) THEN x[k] ELSE 0
BigByte(x, k) == LET j == 2 * (k \div 3) + 1 IN
  IF k % 3 = 0 THEN Dig(x, j) % 256
  ELSE IF k % 3 = 1 THEN Dig(x, j) \div 256 + 16 * (Dig(x, j + 1) % 16)
  ELSE Dig(x, j + 1) \div 16
By(s, k) == IF k <= Len(s) THEN s[k] ELSE 0
BigDigit(s, k) == LET j == 3 * (k \div 2) + 1 IN
  IF k % 2 = 0 THEN By(s, j) + 256 * (By(s, j + 1) % 16) ELSE By(s, j + 1) \div 16 + 16 * By(s, j + 2)

EncF(F, b, n, x) == IF F.big THEN [k \in 1..n |-> BigByte(x, k - 1)] ELSE NatBytes(b, x, n)
ValF(F, b, s) == IF F.big THEN BN!Strip([k \in 1..((2 * Len(s) + 2) \div 3) |-> BigDigit(s, k - 1)]) ELSE BytesNat(b, s, 1)
(* Results of decoding are <<>> (an error) or <<value>>. *)
DecF(F, b, s) == LET x == ValF(F, b, s) IN IF FLt(F, x, F.p) THEN <<x>> ELSE <<>>

Odd(F, x) == FBit(F, x, 0) = 1
EncP(C, P) == IF P = <<>> THEN <<1>> \o EncF(C.E.F, C.base, C.n, F0(C.E.F))
              ELSE <<IF Odd(C.E.F, P[2]) THEN 2 ELSE 0>> \o EncF(C.E.F, C.base, C.n, P[1])
(* s decodes to r.  Of the first byte only the two lowest bits matter, of infinity only the first; where
   these are not as encoding makes them an error is as good. *)
RhsOf(E, x) == FAdd(E.F, FAdd(E.F, FMul(E.F, x, FSq(E.F, x)), FMul(E.F, E.A, x)), E.B)
DecPOk(C, s, r) ==
  LET F == C.E.F x == DecF(F, C.base, Tail(s)) IN
  IF (s[1] % 2) = 1 THEN r = <<<<>>>> \/ (s # EncP(C, <<>>) /\ r = <<>>)
  ELSE IF x = <<>> THEN r = <<>>
  ELSE LET q == RhsOf(C.E, x[1]) IN
       IF ~FIsSquare(F, q) THEN r = <<>>
       ELSE \/ /\ Len(r) = 1 /\ Len(r[1]) = 2 /\ r[1][1] = x[1] /\ InF(F, r[1][2]) /\ FSq(F, r[1][2]) = q
               /\ q # F0(F) => Odd(F, r[1][2]) = ((s[1] \div 2) % 2 = 1)
            \/ r = <<>> /\ (s[1] > 3 \/ (q = F0(F) /\ s[1] # 0))

Size(C, t) == IF t = "f" THEN C.n ELSE IF t = "s" THEN C.m ELSE C.n + 1
EncItem(C, it) == IF it[1] = "f" THEN EncF(C.E.F, C.base, C.n, it[2])
                  ELSE IF it[1] = "s" THEN EncF(C.E.S, C.base, C.m, it[2]) ELSE EncP(C, it[2])
(* Reading an item of type t at the start of s may give r. *)
DecOk(C, t, s, r) ==
  IF Len(s) < Size(C, t) THEN r = <<>>
  ELSE LET h == SubSeq(s, 1, Size(C, t)) IN
       CASE t = "f" -> r = DecF(C.E.F, C.base, h)
         [] t = "s" -> r = DecF(C.E.S, C.base, h)
         [] t = "p" -> DecPOk(C, h, r)
RECURSIVE EncAll(_, _, _)
EncAll(C, its, k) == IF k > Len(its) THEN <<>> ELSE EncItem(C, its[k]) \o EncAll(C, its, k + 1)
(* Reading items of types ts in turn gives rs; reading stops at the first error, and every item read
   leaves the reader at its end. *)
RECURSIVE ReadsOk(_, _, _, _, _, _)
ReadsOk(C, ts, s, rs, at, k) ==
  IF k > Len(ts) THEN Len(rs) = Len(ts)
  ELSE /\ Len(rs) >= k
       /\ DecOk(C, ts[k], s, rs[k])
       /\ IF rs[k] = <<>> THEN Len(rs) = k
          ELSE /\ at[k] = Size(C, ts[k]) + (IF k = 1 THEN 0 ELSE at[k - 1])
               /\ ReadsOk(C, ts, SubSeq(s, Size(C, ts[k]) + 1, Len(s)), rs, at, k + 1)
=============================================================================
