----------------------------- MODULE PolyTrace ------------------------------
(* Polynomials and transforms of the implementation against their definitions. *)
EXTENDS TraceBase, Poly
Hdr == ndJsonDeserialize(IOEnv.HDR)

CheckRec(r) == LET F == Hdr[r.f].F IN
  /\ r.ok
  /\ CASE r.op = "root" -> IsRoot(F, r.r, r.n)
       [] r.op = "eval" -> r.r = FPoly(F, r.a, r.x)
       [] r.op = "powers" -> r.r = FPowers(F, r.x, r.n)
       [] r.op = "fft" -> /\ IsRoot(F, r.w, r.n)
                          /\ Len(r.a) <= r.n
                          /\ r.r = EvalOn(F, r.a, r.w, r.n)
       [] r.op = "ifft" -> /\ IsRoot(F, r.w, Len(r.a))
                           /\ Len(r.r) = Len(r.a)
                           /\ r.a = EvalOn(F, r.r, r.w, Len(r.a))
       [] r.op = "size" -> r.r = r.n
       [] r.op = "add" -> PEq(F, r.r, PAdd(F, r.a, r.b))
       [] r.op = "mul" -> PEq(F, r.r, PMul(F, r.a, r.b))
       [] r.op = "div" -> IsDiv(F, r.a, r.b, r.r[1], r.r[2])
       [] r.op = "divzh" -> PEq(F, r.a, PMul(F, ZH(F, r.n), PStrip(F, r.r)))
       [] r.op = "deg" -> r.r = PDeg(F, r.a)
       [] r.op = "lead" -> r.r = IF PDeg(F, r.a) < 0 THEN F0(F) ELSE r.a[PDeg(F, r.a) + 1]
       [] r.op = "trim" -> r.r = PStrip(F, r.a)
       [] r.op = "pad" -> r.r = Pad(F, r.a, r.n)
       [] r.op = "zero" -> r.r = (PDeg(F, r.a) < 0)
       [] r.op = "eq" -> r.r = PEq(F, r.a, r.b)
       [] r.op = "halo_s" -> r.r = HaloS(F, r.us)
       [] r.op = "halo_g" -> r.r = HaloG(F, r.us, r.x)
       [] OTHER -> FALSE

Conform == i = 0 \/ Report(CheckRec(Rec))
=============================================================================
