------------------------------- MODULE BigNatPure -------------------------------
(* Natural numbers of any size as little-endian sequences of base-4096 digits,
   without trailing zeros (zero is <<>>).  TLC's integers have 32 bits; these
   definitions never leave that range.  Every operator is also implemented by a
   Java override (java/plv/BigNatOv.java), used for speed; BigNatSelf checks the
   override against the definitions below. *)
EXTENDS Naturals, Sequences

B == 4096

RECURSIVE Strip(_)
Strip(s) == IF s = <<>> THEN <<>>
            ELSE IF s[Len(s)] = 0 THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s

RECURSIVE FromNat(_)
FromNat(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o FromNat(n \div B)

RECURSIVE ToNat(_)
ToNat(a) == IF a = <<>> THEN 0 ELSE a[1] + B * ToNat(Tail(a))

Dg(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxI(i, j) == IF i > j THEN i ELSE j

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF Dg(a, i) < Dg(b, i) THEN 0 - 1
                    ELSE IF Dg(a, i) > Dg(b, i) THEN 1
                    ELSE CmpFrom(a, b, i - 1)
(* -1, 0 or 1 *)
Cmp(a, b) == CmpFrom(a, b, MaxI(Len(a), Len(b)))

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
  IF i > MaxI(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Dg(a, i) + Dg(b, i) + c IN <<s % B>> \o AddFrom(a, b, i + 1, s \div B)
Add(a, b) == AddFrom(a, b, 1, 0)

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == B + Dg(a, i) - Dg(b, i) - c
       IN <<s % B>> \o SubFrom(a, b, i + 1, 1 - (s \div B))
(* a - b for a >= b *)
Sub(a, b) == Strip(SubFrom(a, b, 1, 0))

(* Column k of the product: at most 64 products below 2^24. *)
RECURSIVE ColSum(_, _, _, _)
ColSum(a, b, k, i) == IF i > k THEN 0 ELSE Dg(a, i) * Dg(b, k + 1 - i) + ColSum(a, b, k, i + 1)
RECURSIVE MulFrom(_, _, _, _)
MulFrom(a, b, k, c) ==
  IF k > Len(a) + Len(b) /\ c = 0 THEN <<>>
  ELSE LET s == ColSum(a, b, k, 1) + c IN <<s % B>> \o MulFrom(a, b, k + 1, s \div B)
Mul(a, b) == Strip(MulFrom(a, b, 1, 0))

(* Binary digits, least significant first. *)
RECURSIVE Bits12(_, _)
Bits12(d, n) == IF n = 0 THEN <<>> ELSE <<d % 2>> \o Bits12(d \div 2, n - 1)
RECURSIVE Bits(_)
Bits(a) == IF a = <<>> THEN <<>> ELSE Bits12(a[1], 12) \o Bits(Tail(a))
Bit(a, i) == LET d == Dg(a, (i \div 12) + 1) IN (d \div (2 ^ (i % 12))) % 2

RECURSIVE ModBits(_, _, _, _)
ModBits(bs, i, m, r) ==
  IF i = 0 THEN r
  ELSE LET r2 == Add(Add(r, r), IF bs[i] = 1 THEN <<1>> ELSE <<>>)
       IN ModBits(bs, i - 1, m, IF Cmp(r2, m) >= 0 THEN Sub(r2, m) ELSE r2)
Mod(a, m) == LET bs == Bits(a) IN ModBits(bs, Len(bs), m, <<>>)

RECURSIVE FromBits(_)
FromBits(bs) == IF bs = <<>> THEN <<>>
                ELSE LET r == FromBits(Tail(bs)) IN Add(Add(r, r), IF bs[1] = 1 THEN <<1>> ELSE <<>>)

RECURSIVE DivBits(_, _, _, _)
DivBits(bs, i, m, r) ==
  IF i = 0 THEN <<>>
  ELSE LET r2 == Add(Add(r, r), IF bs[i] = 1 THEN <<1>> ELSE <<>>)
       IN IF Cmp(r2, m) >= 0 THEN DivBits(bs, i - 1, m, Sub(r2, m)) \o <<1>>
          ELSE DivBits(bs, i - 1, m, r2) \o <<0>>
Div(a, m) == LET bs == Bits(a) IN Strip(FromBits(DivBits(bs, Len(bs), m, <<>>)))

AddMod(a, b, m) == Mod(Add(a, b), m)
SubMod(a, b, m) == IF Cmp(a, b) >= 0 THEN Mod(Sub(a, b), m) ELSE Mod(Sub(Add(a, m), b), m)
MulMod(a, b, m) == Mod(Mul(a, b), m)

RECURSIVE PowBits(_, _, _, _)
PowBits(a, bs, i, m) ==
  IF i > Len(bs) THEN <<1>>
  ELSE LET h == PowBits(MulMod(a, a, m), bs, i + 1, m) IN IF bs[i] = 1 THEN MulMod(a, h, m) ELSE h
PowMod(a, e, m) == Mod(PowBits(a, Bits(e), 1, m), m)

(* Inverse modulo a prime, by Fermat. *)
InvMod(a, m) == PowMod(a, Sub(m, <<2>>), m)
=============================================================================
