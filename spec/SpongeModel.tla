----------------------------- MODULE SpongeModel -----------------------------
(* The challenger over a free permutation: two histories of the same shape, run side by side.  An element
   of the state is <<lane, what was permuted, sum of what was added since>>; nothing but equal inputs gives
   equal outputs.  Observed values are modulo Vals. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Vals,     \* number of values that can be observed
          Len_      \* length of the histories
Zero(R) == [j \in 1..4 |-> <<j, <<>>, 0>>]
Add(R, x, y) == <<x[1], x[2], (x[3] + y) % Vals>>
Free(R, s) == LET q == <<s[1][2], s[1][3], s[2][3], s[3][3], s[4][3]>> IN [j \in 1..4 |-> <<j, q, 0>>]
INSTANCE Sponge WITH PermOp <- Free, AddOp <- Add, ZeroOp <- Zero
NoR == <<>>

VARIABLES a, b,         \* the two challengers
          outs,         \* the pairs of challenges given
          differ,       \* whether the histories differ so far
          fresh,        \* whether they differ at something which was observed before some challenge
          n
vars == <<a, b, outs, differ, fresh, n>>
Init == a = Ch0(NoR) /\ b = Ch0(NoR) /\ outs = <<>> /\ differ = FALSE /\ fresh = FALSE /\ n = 0
ObserveBoth == \E x \in 0..(Vals - 1), y \in 0..(Vals - 1) :
  /\ n < Len_ /\ n' = n + 1
  /\ a' = Observe(NoR, a, <<x>>) /\ b' = Observe(NoR, b, <<y>>)
  /\ differ' = (differ \/ x # y)
  /\ UNCHANGED <<outs, fresh>>
ChallengeBoth ==
  /\ n < Len_ /\ n' = n + 1
  /\ LET p == Challenge(NoR, a) q == Challenge(NoR, b) IN
     /\ a' = p[2] /\ b' = q[2] /\ outs' = Append(outs, <<p[1], q[1], differ>>)
  /\ fresh' = differ
  /\ UNCHANGED differ
Next == ObserveBoth \/ ChallengeBoth
Spec == Init /\ [][Next]_vars

(* Challenges differ exactly from the first difference on. *)
Binding == \A k \in 1..Len(outs) : (outs[k][1] # outs[k][2]) = outs[k][3]
(* No challenge is given twice. *)
Fresh == /\ Cardinality({outs[k][1] : k \in 1..Len(outs)}) = Len(outs)
         /\ Cardinality({outs[k][2] : k \in 1..Len(outs)}) = Len(outs)
(* Calls may be bundled or split. *)
Bundles == \A x \in 0..1, y \in 0..1 :
  /\ Observe(NoR, a, <<x, y>>) = Observe(NoR, Observe(NoR, a, <<x>>), <<y>>)
  /\ Observe(NoR, a, <<>>) = a
=============================================================================
