----------------------------- MODULE FieldTrace -----------------------------
(* Field arithmetic: every recorded operation of the implementation against
   arithmetic modulo the declared prime. *)
EXTENDS TraceBase, Fp
BN == INSTANCE BigNat

Hdr == ndJsonDeserialize(IOEnv.HDR)     \* the fields: [F, gen, adicity, t, alpha, ...]
Fld(r) == Hdr[r.f].F

Even(F, a) == FBit(F, a, 0) = 0

CheckRec(r) ==
  LET h == Hdr[r.f] F == h.F IN
  /\ r.ok
  /\ CASE r.op = "add" -> r.r = FAdd(F, r.a, r.b)
       [] r.op = "sub" -> r.r = FSub(F, r.a, r.b)
       [] r.op = "mul" -> r.r = FMul(F, r.a, r.b)
       [] r.op = "div" -> InF(F, r.r) /\ FMul(F, r.r, r.b) = r.a
       [] r.op = "neg" -> r.r = FNeg(F, r.a)
       [] r.op = "sq" -> r.r = FSq(F, r.a)
       [] r.op = "cube" -> r.r = FMul(F, r.a, FSq(F, r.a))
       [] r.op = "times" -> r.r = FMul(F, FNat(F, r.k), r.a)
       [] r.op = "inv" -> IF r.a = F0(F) THEN r.r = <<>>
                          ELSE Len(r.r) = 1 /\ InF(F, r.r[1]) /\ FMul(F, r.r[1], r.a) = F1(F)
       [] r.op = "batchinv" -> /\ Len(r.r) = Len(r.xs)
                               /\ \A j \in 1..Len(r.xs) :
                                    IF r.xs[j] = F0(F) THEN r.r[j] = <<>>
                                    ELSE Len(r.r[j]) = 1 /\ FMul(F, r.r[j][1], r.xs[j]) = F1(F)
       [] r.op = "exp" -> r.r = FExp(F, r.a, r.b)
       [] r.op = "root" -> InF(F, r.r) /\ FExpN(F, r.r, r.k) = r.a
       [] r.op = "sqrt" -> IF FIsSquare(F, r.a) THEN Len(r.r) = 1 /\ InF(F, r.r[1]) /\ FSq(F, r.r[1]) = r.a
                           ELSE r.r = <<>>
       [] r.op = "qr" -> r.r = FIsSquare(F, r.a)
       [] r.op = "cmp" -> r.r = BN!Cmp(r.a, r.b) + 1
       [] r.op = "eq" -> r.r = (r.a = r.b)
       [] r.op = "bits" -> r.r = Len(BN!Strip(BN!Bits(r.a)))
       [] r.op = "canon" -> r.r = r.a /\ InF(F, r.r)          \* constructor . projection
       [] r.op = "valid" -> r.r = (BN!Cmp(r.a, F.p) < 0)
       [] r.op = "limbs" -> r.b = r.a                         \* u64/u32/u8/bool encodings
       [] r.op = "fromn" -> r.r = BN!Mod(r.a, F.p)
       [] r.op = "conv" -> LET G == Hdr[r.g].F IN
                           IF BN!Cmp(r.a, G.p) < 0 THEN r.r = <<r.a>> ELSE r.r = <<>>
       [] r.op = "const" -> r.r = (IF r.k >= 0 THEN FNat(F, r.k) ELSE FNeg(F, FNat(F, 0 - r.k)))
       [] r.op = "unity" -> /\ FExp(F, r.r, BN!PowMod(<<2>>, BN!FromNat(r.k), F.p)) = F1(F)
                            /\ r.k > 0 => FExp(F, r.r, BN!PowMod(<<2>>, BN!FromNat(r.k - 1), F.p)) = FNeg(F, F1(F))
       [] r.op = "params" -> \* p - 1 = 2^adicity * T, T odd; the generator is a non-residue;
                             \* x -> x^alpha is a permutation: alpha prime and not dividing p-1
                             /\ BN!Mul(BN!PowMod(<<2>>, BN!FromNat(r.adicity), F.p), r.t) = BN!Sub(F.p, <<1>>)
                             /\ BN!Bit(r.t, 0) = 1
                             /\ ~FIsSquare(F, r.gen)
                             /\ BN!Mod(BN!Sub(F.p, <<1>>), r.alpha) # <<>>
                             /\ r.bits = Len(BN!Strip(BN!Bits(F.p)))
                             /\ r.bytes * 8 >= r.bits
       [] r.op = "subgroup" -> /\ Len(r.r) = r.k
                               /\ r.r = FPowers(F, r.a, r.k)
       [] r.op = "inner" -> r.r = FInner(F, r.xs, r.ys, 1)
       [] r.op = "addsl" -> r.r = [j \in 1..Len(r.xs) |-> FAdd(F, r.xs[j], r.ys[j])]
       [] r.op = "scale" -> r.r = [j \in 1..Len(r.xs) |-> FMul(F, r.a, r.xs[j])]
       [] r.op = "rand" -> InF(F, r.r)
       [] OTHER -> FALSE

Conform == i = 0 \/ Report(CheckRec(Rec))
=============================================================================
