--------------------------- MODULE HashCurveTrace ---------------------------
(* Points derived from seeds by the implementation. *)
EXTENDS TraceBase, HashCurve, FiniteSets
RS == INSTANCE Rescue
Hdr == ndJsonDeserialize(IOEnv.HDR)
(* Rescue's parameters per curve and security level. *)
Par == TLCEval([h \in 1..Len(Hdr) |-> [q \in 1..Len(Hdr[h].rs) |-> LET x == Hdr[h].rs[q] IN
         [F |-> x.F, alpha |-> x.alpha, inv |-> x.inv, ks |-> SubSeq(x.ks, 1, RS!Rounds(x.sec, 4)), mds |-> RS!Mds(x.F, 4)]]])

Distinct(s) == Cardinality({s[k] : k \in 1..Len(s)}) = Len(s)
CheckRec(r) == LET h == Hdr[r.c] E == h.E IN
  /\ r.ok
  /\ \A k \in 1..Len(r.r) : r.r[k] # <<>> /\ IsPoint(E, r.r[k])
  /\ CASE r.op = "blake" -> /\ r.r[1] = r.r[2]       \* two calls
                            /\ FirstOf(E, Abscissae(E, h.bits, h.bytes, r.hs), r.r[1])
       [] r.op = "rescue" -> /\ r.r[1] = r.r[2]
                             /\ LET o == TLCEval([k \in 1..r.n |-> RS!SpongeHash(Par[r.c][r.q], <<r.seed, FNat(E.F, k - 1)>>, 2)])
                                IN FirstOf(E, TLCEval([k \in 1..r.n |-> o[k][1]]), r.r[1])
       [] r.op = "same" -> \A k \in 1..Len(r.r) : r.r[k] = r.r[1]
       [] r.op = "distinct" -> /\ Len(r.r) = r.n /\ Distinct(r.r)
       \* the generators of a circuit of degree n are the points of the seeds 0 to n + 1
       [] r.op = "gens" -> /\ Len(r.r) = r.n + 2 /\ Distinct(r.r)
                           /\ r.r = r.list
       [] OTHER -> FALSE
Conform == i = 0 \/ Report(CheckRec(Rec))
=============================================================================
