----------------------------- MODULE PlookupTrace -----------------------------
(* Lookup proofs of the implementation, its verdicts and its tables against the protocol. *)
EXTENDS TraceBase, Plookup, FiniteSets
Hdr == ndJsonDeserialize(IOEnv.HDR)
MkR(h) == [F |-> h.F, alpha |-> h.alpha, inv |-> h.inv, ks |-> h.ks, mds |-> Mds(h.F, h.w)]
Settings == TLCEval([j \in 1..Len(Hdr) |-> [E |-> Hdr[j].E, zetas |-> Hdr[j].zetas, R |-> MkR(Hdr[j].R), RS |-> MkR(Hdr[j].RS), gs |-> Hdr[j].gs, root |-> Hdr[j].root]])
ToSet(s) == {s[j] : j \in DOMAIN s}
Inside(f, t) == Len(t) > 0 /\ ToSet(f) \subseteq ToSet(t)

ChOk(F, spec, r) ==
  IF ~spec.ok THEN ~r.ok /\ ~r.panic
  ELSE /\ r.ok
       /\ r.beta = spec.beta /\ r.gamma = spec.gamma /\ r.alpha = spec.alpha /\ r.zeta = spec.zeta
       /\ r.v = spec.v /\ r.u = spec.u /\ r.us = spec.us /\ r.sch = spec.sch
       /\ RootsOf(F, r.rs, spec.sq)
\* the root of unity of order m, from one of order 2^k
VerifyOk(r) ==
  LET X == Settings[r.c]
      small == LShapeOk(X, r.t, r.pf)
      root == IF small THEN X.root[Log2(r.pf.n + 1)] ELSE F0(X.E.S)
      t == TLCEval(IF small /\ LPointsOk(X, r.pf) THEN LTranscript(X, r.pf) ELSE [ok |-> FALSE])
      v == LReason(X, r.t, r.pf, r.ch.rs, root, t) IN
  /\ r.res = IF v = "accept" THEN "accept" ELSE "reject"
  /\ t.ok => ChOk(X.E.S, t, r.ch)
  /\ r.what = "honest" => v = "accept"
  /\ "want" \in DOMAIN r => v = r.want
  /\ "f" \in DOMAIN r /\ ~Inside(r.f, r.t) => v # "accept"

(* Tables *)
RECURSIVE Sq(_, _, _)
Sq(F, a, j) == IF j > Len(a) THEN F0(F) ELSE FAdd(F, FMul(F, FNat(F, j), FSq(F, a[j])), Sq(F, a, j + 1))
Func(F, a) == FAdd(F, Sq(F, a, 1), ProdFrom(F, a, 1))
RECURSIVE Tuples(_, _)
Tuples(s, k) == IF k = 0 THEN <<<<>>>>
  ELSE Flat([j \in 1..Len(s) |-> LET rest == Tuples(s, k - 1) IN [q \in 1..Len(rest) |-> <<s[j]>> \o rest[q]]])
RowValue(F, al, row) == FPoly(F, [j \in 1..Len(row) |-> row[Len(row) + 1 - j]], al)

CheckRec(r) == LET X == Settings[r.c] F == X.E.S IN
  CASE r.op = "verify" -> VerifyOk(r)
    \* opened values have to fit in both fields, and can be elements of the table
    [] r.op = "prove" -> IF ~Inside(r.f, r.t) THEN r.res = "refused"
                         ELSE r.res = "ok" \/ (r.res = "refused" /\ ~AllFit(X.E.F, r.t))
    [] r.op = "rows" -> r.r = [j \in 1..Len(r.dom) |-> Append(r.dom[j], Func(F, r.dom[j]))]
    [] r.op = "cartesian" -> LET d == Tuples(r.axis, r.m) IN r.r = [j \in 1..Len(d) |-> Append(d[j], Func(F, d[j]))]
    [] r.op = "reduce" -> LET al == Challenge(X.RS, Observe(X.RS, Ch0(X.RS), Flat(r.rows)))[1]
                          IN r.r = [j \in 1..Len(r.rows) |-> RowValue(F, al, r.rows[j])]
    [] r.op = "lookup" -> IF ToSet(r.w) \subseteq ToSet(r.rows) THEN r.res = "accept" ELSE r.res \in {"refused", "reject"}
    [] OTHER -> FALSE
Conform == i = 0 \/ Report(CheckRec(Rec))
=============================================================================
