----------------------------- MODULE HashTrace -----------------------------
(* Rescue, the hash functions and the challenger of the implementation against the specification. *)
EXTENDS TraceBase, Rescue, FiniteSets
BNh == INSTANCE BigNat
(* The parameter sets; the matrix and the number of rounds are computed here. *)
Par == TLCEval(LET h == ndJsonDeserialize(IOEnv.HDR) IN
  [j \in 1..Len(h) |-> [F |-> h[j].F, alpha |-> h[j].alpha, inv |-> h[j].inv, w |-> h[j].w, sec |-> h[j].sec,
                        ks |-> SubSeq(h[j].ks, 1, Rounds(h[j].sec, h[j].w)), mds |-> Mds(h[j].F, h[j].w)]])

RECURSIVE Iter(_, _, _)
Iter(R, x, n) == IF n = 0 THEN <<>> ELSE LET y == SpongeHash(R, <<x>>, 1)[1] IN <<y>> \o Iter(R, y, n - 1)

(* The challenges of a history which follow position p. *)
NumBefore(h, p) == Cardinality({k \in 1..p : h[k][1] = 1})
FirstDiff(g, h) == CHOOSE k \in 1..(Len(g) + 1) : (k > Len(g) \/ g[k] # h[k]) /\ \A m \in 1..(k - 1) : g[m] = h[m]

CheckRec(r) == LET R == Par[r.s] F == R.F IN
  /\ r.ok
  /\ CASE r.op = "params" ->
            /\ Len(R.ks) = Rounds(R.sec, R.w)
            \* the exponents are inverse to each other, so that x^alpha is a permutation; the matrix is MDS
            /\ IF F.big THEN BNh!Mod(BNh!Mul(R.alpha, R.inv), BNh!Sub(F.p, <<1>>)) = <<1>>
               ELSE (R.alpha * R.inv) % (F.p - 1) = 1
            /\ IsMds(F, R.mds)
       [] r.op = "perm" -> /\ r.r = Perm(R, r.xs)
                           /\ PermInv(R, r.r) = r.xs
       [] r.op = "hash" -> r.r = SpongeHash(R, r.xs, r.n)
       [] r.op = "prg" -> r.r = Iter(R, r.x, r.n)
       [] r.op = "hist" ->
            /\ Len(r.r) = Len(r.hs)
            /\ \A j \in 1..Len(r.hs) :
                 /\ r.r[j] = History(R, r.hs[j])
                 /\ Cardinality({r.r[j][k] : k \in 1..Len(r.r[j])}) = Len(r.r[j])
                 /\ LET d == FirstDiff(r.hs[1], r.hs[j]) IN
                    \A k \in 1..Len(r.r[j]) : (r.r[j][k] # r.r[1][k]) = (k > NumBefore(r.hs[1], d - 1) /\ d <= Len(r.hs[1]))
       [] OTHER -> FALSE
Conform == i = 0 \/ Report(CheckRec(Rec))
=============================================================================
