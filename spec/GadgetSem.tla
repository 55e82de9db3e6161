------------------------------ MODULE GadgetSem ------------------------------
(* What the gadgets of the circuit builder compute.  A program is a sequence of steps [g, a, par]: gadget,
   operands (numbers of earlier values), constant parameters.  A value is an element of the field ("f"), a
   point <<x, y>> ("pt"), an ordering <<lt, eq, gt>> ("ord") or a natural number in limbs ("int"), all
   elements and numbers being BigNats.  A step yields [st, o]: o its results, and st
     "yes"  the circuit must be satisfiable, with these results only,
     "no"   the circuit must not be satisfiable,
     "may"  it may refuse, but must not be satisfiable with other results,
     "any"  outside the gadget's domain: nothing is required. *)
EXTENDS Curve
LOCAL INSTANCE TLC
LOCAL BN == INSTANCE BigNat
LOCAL RS == INSTANCE Rescue

LimbBits == 86
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN <<1>> ELSE LET h == TLCEval(Pow2(n - 1)) IN BN!Add(h, h)
Limb == TLCEval(Pow2(LimbBits))
RECURSIVE BitLen(_)
BitLen(x) == IF x = <<>> THEN 0 ELSE LET t == x[Len(x)] IN
             12 * (Len(x) - 1) + (CHOOSE k \in 1..12 : 2 ^ (k - 1) <= t /\ t < 2 ^ k)
Lt(x, y) == BN!Cmp(x, y) < 0
RECURSIVE JoinFrom(_, _)
JoinFrom(ls, j) == IF j > Len(ls) THEN <<>> ELSE BN!Add(ls[j], BN!Mul(Limb, JoinFrom(ls, j + 1)))
(* the number with these limbs *)
Join(ls) == JoinFrom(ls, 1)
(* the limbs of a number not above max encode it within its declared size *)
LimbOk(l, j, max) == LET bits == BitLen(max) - LimbBits * (j - 1) IN
                     IF bits <= 0 THEN l = <<>> ELSE BitLen(l) <= 2 * (((IF bits < LimbBits THEN bits ELSE LimbBits) + 1) \div 2)

RECURSIVE Sum(_, _)
Sum(xs, j) == IF j > Len(xs) THEN <<>> ELSE BN!Add(xs[j], Sum(xs, j + 1))
RECURSIVE Prod(_, _, _)
Prod(F, xs, j) == IF j > Len(xs) THEN F1(F) ELSE FMul(F, xs[j], Prod(F, xs, j + 1))

(* A square root, by Tonelli and Shanks: x = q 2^s + 1, z a nonresidue to the power q. *)
RECURSIVE Twos(_)
Twos(n) == IF n[1] % 2 = 1 THEN <<0, n>> ELSE LET t == Twos(BN!Div(n, <<2>>)) IN <<t[1] + 1, t[2]>>
RECURSIVE Order2(_, _, _)
Order2(F, t, k) == IF t = F1(F) THEN k ELSE Order2(F, FSq(F, t), k + 1)
RECURSIVE SqTimes(_, _, _)
SqTimes(F, x, k) == IF k = 0 THEN x ELSE SqTimes(F, FSq(F, x), k - 1)
RECURSIVE Tonelli(_, _, _, _, _)
Tonelli(F, m, z, t, r) ==
  IF t = F1(F) THEN r
  ELSE LET k == Order2(F, t, 0)
           b == TLCEval(SqTimes(F, z, m - k - 1))
           b2 == FSq(F, b)
       IN Tonelli(F, k, b2, FMul(F, t, b2), FMul(F, r, b))
(* of a nonzero square *)
FSqrt(F, x) == LET sq == TLCEval(Twos(BN!Sub(F.p, <<1>>)))
                   nr == CHOOSE n \in 2..100 : ~FIsSquare(F, FNat(F, n)) /\ \A k \in 2..(n - 1) : FIsSquare(F, FNat(F, k))
               IN Tonelli(F, sq[1], FExp(F, FNat(F, nr), sq[2]), FExp(F, x, sq[2]), FExp(F, x, BN!Div(BN!Add(sq[2], <<1>>), <<2>>)))
Even(x) == x = <<>> \/ x[1] % 2 = 0

Yes(o) == [st |-> "yes", o |-> o]
No == [st |-> "no", o |-> <<>>]
Free == [st |-> "any", o |-> <<>>]
May(o) == [st |-> "may", o |-> o]
Only(b) == IF b THEN Yes(<<>>) ELSE No

(* C: the circuit, with the field F, the embedded curve E and Rescue's parameters R. *)
Step(C, g, x, par) ==
  LET F == C.F
      E == [F |-> F, A |-> C.G.A, B |-> C.G.B, S |-> F]
      one == F1(F)  zero == F0(F)
      bool(b) == IF b THEN one ELSE zero
      bit(v) == v = zero \/ v = one
      mul(s, t) == FMul(F, s, t)
      half == BitLen(F.p) - 1
      short(s) == BitLen(s) <= half
      ord(c) == <<bool(c < 0), bool(c = 0), bool(c > 0)>>
      curve(P, must) == IF P = <<>> THEN No ELSE IF must THEN Yes(<<P>>) ELSE May(<<P>>)
  IN
  CASE g = "const" -> Yes(<<par[1]>>)
    [] g = "add" -> Yes(<<FAdd(F, x[1], x[2])>>)
    [] g = "sub" -> Yes(<<FSub(F, x[1], x[2])>>)
    [] g = "mul" -> Yes(<<mul(x[1], x[2])>>)
    [] g = "mul_add" -> Yes(<<FAdd(F, mul(x[1], x[2]), x[3])>>)
    [] g = "mul_sub" -> Yes(<<FSub(F, mul(x[1], x[2]), x[3])>>)
    [] g = "neg" -> Yes(<<FNeg(F, x[1])>>)
    [] g = "double" -> Yes(<<FAdd(F, x[1], x[1])>>)
    [] g = "square" -> Yes(<<FSq(F, x[1])>>)
    [] g = "inv" -> IF x[1] = zero THEN No ELSE Yes(<<FInv(F, x[1])>>)
    [] g = "div" -> IF x[2] = zero THEN No ELSE Yes(<<FDiv(F, x[1], x[2])>>)
    [] g = "exp" -> Yes(<<FExp(F, x[1], par[1])>>)
    [] g = "add_many" -> Yes(<<FSum(F, x)>>)
    [] g = "mul_many" -> Yes(<<Prod(F, x, 1)>>)
    [] g = "select" -> IF bit(x[1]) THEN Yes(<<IF x[1] = one THEN x[2] ELSE x[3]>>) ELSE Free
    [] g = "not" -> IF bit(x[1]) THEN Yes(<<bool(x[1] = zero)>>) ELSE Free
    [] g = "is_zero" -> Yes(<<bool(x[1] = zero)>>)
    [] g = "is_nonzero" -> Yes(<<bool(x[1] # zero)>>)
    [] g = "is_equal" -> Yes(<<bool(x[1] = x[2])>>)
    [] g = "is_not_equal" -> Yes(<<bool(x[1] # x[2])>>)
    [] g = "sqrt" -> IF ~FIsSquare(F, x[1]) THEN No
                     ELSE LET r == IF x[1] = zero THEN zero ELSE FSqrt(F, x[1])
                              e == IF Even(r) THEN r ELSE FNeg(F, r)
                          IN IF short(e) THEN Yes(<<e>>) ELSE May(<<e>>)
    [] g = "assert_zero" -> Only(x[1] = zero)
    [] g = "assert_one" -> Only(x[1] = one)
    [] g = "assert_binary" -> Only(bit(x[1]))
    [] g = "assert_nonzero" -> Only(x[1] # zero)
    [] g = "assert_all_base_4" -> Only(\A k \in 1..Len(x) : Lt(x[k], <<4>>))
    [] g = "copy" -> Only(x[1] = x[2])
    [] g = "conditional_copy" -> Only(x[1] = zero \/ x[2] = x[3])
    [] g = "ordering_assert_valid" -> Only(\E k \in 1..3 : \A m \in 1..3 : x[m] = bool(m = k))
    [] g = "constant_ordering" -> Yes(<<ord(par[1])>>)
    [] g = "hash" -> LET h == RS!SpongeHash(C.R, x, par[1]) IN Yes(h)
    [] g = "permutation" -> Yes(RS!Perm(C.R, x))
    \* points
    [] g = "constant_point" -> Yes(<<par>>)
    [] g = "curve_assert_valid" -> Only(OnCurve(E, x[1]))
    [] g = "curve_neg" -> Yes(<<CNeg(E, x[1])>>)
    [] g = "curve_add" -> IF x[1][1] = x[2][1] THEN No ELSE Yes(<<CAdd(E, x[1], x[2])>>)
    [] g = "curve_sub" -> IF x[1][1] = x[2][1] THEN No ELSE Yes(<<CSub(E, x[1], x[2])>>)
    [] g = "curve_double" -> IF x[1][2] = zero THEN No ELSE Yes(<<CDbl(E, x[1])>>)
    [] g = "copy_curve" -> Only(x[1] = x[2])
    \* products and multi-products: scalars and points alternate; exceptional cases, which only a tiny curve has, may be refused
    [] g = "curve_msm" ->
         LET n == Len(x) \div 2
             ps == [k \in 1..n |-> CMulG(E, F, x[2 * k - 1], x[2 * k])]
         IN curve(CSum(E, TLCEval(ps)), C.real /\ \A k \in 1..n : short(x[2 * k - 1]))
    \* the result times n(scalar) is the point / the point times n(scalar) is the result; n taken from the scalar's low bits
    [] g = "curve_mul_endo" -> LET s == HaloN(C.S, C.zs, TLCEval([k \in 1..128 |-> BN!Bit(x[1], k - 1)]))
                               IN Yes(<<CMulG([E EXCEPT !.S = C.S], C.S, s, x[2]), s>>)
    [] g = "curve_mul_inv_endo" -> LET s == HaloN(C.S, C.zs, TLCEval([k \in 1..128 |-> BN!Bit(x[1], k - 1)]))
                               IN Yes(<<CMulG([E EXCEPT !.S = C.S], C.S, FInv(C.S, s), x[2]), s>>)
    \* integers
    [] g = "constant_bigint" -> Yes(<<par[1]>>)
    [] g = "bigint_add" -> Yes(<<Sum(x, 1)>>)
    [] g = "bigint_mul" -> Yes(<<BN!Mul(x[1], x[2])>>)
    [] g = "bigint_div_rem" -> IF x[2] = <<>> THEN No ELSE Yes(<<BN!Div(x[1], x[2]), BN!Mod(x[1], x[2])>>)
    [] g = "bigint_div" -> IF x[2] = <<>> THEN No ELSE Yes(<<BN!Div(x[1], x[2])>>)
    [] g = "bigint_rem" -> IF x[2] = <<>> THEN No ELSE Yes(<<BN!Mod(x[1], x[2])>>)
    [] g = "bigint_cmp" -> Yes(<<ord(BN!Cmp(x[1], x[2]))>>)
    [] g = "copy_bigint" -> Only(x[1] = x[2])
    [] g = "foreign_add" -> Yes(<<BN!Mod(Sum(x, 1), par[1])>>)
    [] g = "foreign_mul" -> Yes(<<BN!Mod(BN!Mul(x[1], x[2]), par[1])>>)

(* The values of a program: those of its inputs, and of its steps as far as they are defined. *)
RECURSIVE RunFrom(_, _, _, _)
RunFrom(C, k, st, vals) ==
  IF k > Len(C.prog) \/ st \in {"no", "any"} THEN [st |-> st, vals |-> vals]
  ELSE LET s == C.prog[k]
           r == TLCEval(Step(C, s.g, TLCEval([j \in 1..Len(s.a) |-> vals[s.a[j]]]), s.par))
       IN RunFrom(C, k + 1, IF r.st \in {"no", "any"} THEN r.st
                            ELSE IF r.st = "may" THEN "may" ELSE st, vals \o r.o)
(* inputs: numbers come as sequences of limbs *)
InputVal(C, xs, k) == IF C.types[k] = "int" THEN Join(xs[k]) ELSE xs[k]
InputsOk(C, xs) == \A k \in 1..Len(xs) : C.types[k] = "int" => \A j \in 1..Len(xs[k]) : LimbOk(xs[k][j], j, C.maxs[k])
(* within the range the encoding can check, but above the declared bound *)
InputsDom(C, xs) == \A k \in 1..Len(xs) : C.types[k] = "int" => ~Lt(C.maxs[k], Join(xs[k]))
Run(C, xs) == IF ~InputsOk(C, xs) THEN [st |-> "no", vals |-> <<>>]
              ELSE IF ~InputsDom(C, xs) THEN [st |-> "any", vals |-> <<>>]
              ELSE RunFrom(C, 1, "yes", TLCEval([k \in 1..Len(xs) |-> InputVal(C, xs, k)]))
=============================================================================
