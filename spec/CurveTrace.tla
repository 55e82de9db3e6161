----------------------------- MODULE CurveTrace -----------------------------
(* Points and sums of points of the implementation against the group law. *)
EXTENDS TraceBase, Curve
BN == INSTANCE BigNat
Hdr == ndJsonDeserialize(IOEnv.HDR)
Crv(r) == Hdr[r.c].E

All(s, Ok(_)) == \A j \in 1..Len(s) : Ok(j)

CheckRec(r) == LET h == Hdr[r.c] E == h.E F == h.E.F IN
  /\ r.ok
  /\ CASE r.op = "valid" -> r.r = OnCurve(E, r.p)
       \* a is one point (p its representation as used); qs are points; r the results
       [] r.op \in {"padd", "pmadd", "aadd", "padds"} ->
            /\ Len(r.r) = Len(r.qs)
            /\ All(r.qs, LAMBDA j : Rep(E, r.r[j], CAdd(E, r.a, r.qs[j])))
       [] r.op \in {"pdbl"} -> Len(r.r) = Len(r.qs) /\ All(r.qs, LAMBDA j : Rep(E, r.r[j], CDbl(E, r.qs[j])))
       [] r.op \in {"adbl"} -> Len(r.r) = Len(r.qs) /\ All(r.qs, LAMBDA j : r.r[j] = CDbl(E, r.qs[j]))
       [] r.op \in {"pneg"} -> Len(r.r) = Len(r.qs) /\ All(r.qs, LAMBDA j : Rep(E, r.r[j], CNeg(E, r.qs[j])))
       [] r.op \in {"aneg"} -> Len(r.r) = Len(r.qs) /\ All(r.qs, LAMBDA j : r.r[j] = CNeg(E, r.qs[j]))
       [] r.op \in {"toaff", "btoaff"} -> r.r = r.qs
       [] r.op \in {"toproj", "btoproj"} -> Len(r.r) = Len(r.qs) /\ All(r.qs, LAMBDA j : Rep(E, r.r[j], r.qs[j]))
       [] r.op \in {"aeq", "peq"} -> Len(r.r) = Len(r.qs) /\ All(r.qs, LAMBDA j : r.r[j] = (r.qs[j] = r.a))
       [] r.op = "endo" -> /\ r.r = IF r.a = <<>> THEN <<>> ELSE <<FMul(F, h.zeta, r.a[1]), r.a[2]>>
                           /\ r.r = CMul(E, h.zetas, r.a)
       [] r.op = "params" ->
            /\ OnCurve(E, h.gen) /\ h.gen # <<>>
            /\ r.order => CMulG(E, [big |-> TRUE], h.order, h.gen) = <<>>
            /\ r.halo => /\ h.zeta # F1(F) /\ FMul(F, h.zeta, FSq(F, h.zeta)) = F1(F)
                         /\ h.zetas # F1(E.S) /\ FMul(E.S, h.zetas, FSq(E.S, h.zetas)) = F1(E.S)
            /\ r.safe = ~(FAdd(F, FMul(F, FNat(F, 4), FMul(F, E.A, FSq(F, E.A))), FMul(F, FNat(F, 27), FSq(F, E.B))) = F0(F))
       \* summations and multiplications
       [] r.op = "sum" -> Rep(E, r.r, CSum(E, r.ps))
       [] r.op = "msums" -> Len(r.r) = Len(r.pss) /\ All(r.pss, LAMBDA j : Rep(E, r.r[j], CSum(E, r.pss[j])))
       [] r.op = "mul" -> Rep(E, r.r, CMul(E, r.s, r.a))
       [] r.op = "msm" -> Rep(E, r.r, CMsm(E, r.ss, r.ps))
       [] r.op = "halo_n" -> r.r = HaloN(E.S, h.zetas, r.bits)
       [] r.op = "halo_n_mul" -> r.r = CMul(E, HaloN(E.S, h.zetas, r.bits), r.a)
       [] OTHER -> FALSE

Conform == i = 0 \/ Report(CheckRec(Rec))
=============================================================================
