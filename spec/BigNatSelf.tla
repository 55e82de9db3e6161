----------------------------- MODULE BigNatSelf -----------------------------
(* The Java override of BigNat (which TLC substitutes when it evaluates BigNat's operators) agrees
   with BigNat's TLA+ definitions: BigNatPure has the same text under a name without an override. *)
EXTENDS Naturals, Sequences
O == INSTANCE BigNat
P == INSTANCE BigNatPure

Digits == {0, 1, 2048, 4095}
Ops == {P!Strip(s) : s \in UNION {[1..n -> Digits] : n \in 0..2}}
       \cup {<<0, 0, 1>>, <<4095, 4095, 4095>>, <<5, 0, 0, 7>>, <<1, 2, 3, 4, 5>>}
Mods == {<<577>>, <<3, 0, 1>>, <<4095, 4095>>}

VARIABLES a, b
Init == a \in Ops /\ b = <<>>
Next == b = <<>> /\ b' \in Ops /\ a' = a
Spec == Init /\ [][Next]_<<a, b>>

Arith ==
  /\ O!Cmp(a, b) = P!Cmp(a, b)
  /\ O!Add(a, b) = P!Add(a, b)
  /\ O!Mul(a, b) = P!Mul(a, b)
  /\ P!Cmp(a, b) >= 0 => O!Sub(a, b) = P!Sub(a, b)
  /\ b # <<>> => O!Mod(a, b) = P!Mod(a, b) /\ O!Div(a, b) = P!Div(a, b)
Modular ==
  \A m \in Mods :
    /\ O!AddMod(a, b, m) = P!AddMod(a, b, m)
    /\ O!MulMod(a, b, m) = P!MulMod(a, b, m)
    /\ LET x == P!Mod(a, m) y == P!Mod(b, m) IN O!SubMod(x, y, m) = P!SubMod(x, y, m)
Unary ==
  a = b =>
    /\ O!Bits(a) = P!Bits(a)
    /\ \A i \in 0..40 : O!Bit(a, i) = P!Bit(a, i)
    /\ O!Strip(a \o <<0, 0>>) = P!Strip(a \o <<0, 0>>)
    /\ \A m \in Mods : \A e \in {<<>>, <<1>>, <<2>>, <<4095, 3>>} : O!PowMod(a, e, m) = P!PowMod(a, e, m)
    /\ \A m \in {<<7>>, <<577>>} : P!Mod(a, m) # <<>> =>
          O!InvMod(P!Mod(a, m), m) = P!InvMod(P!Mod(a, m), m)
    /\ Len(a) <= 2 => O!ToNat(a) = P!ToNat(a) /\ O!FromNat(P!ToNat(a)) = a
=============================================================================
