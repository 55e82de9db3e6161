----------------------------- MODULE WiringTrace -----------------------------
(* Wiring and witness generation of the implementation.  Targets of a circuit of n rows: wire i of row g
   is 9g+i+1, virtual target v is 9n+v+1, public input p is 9n+nv+p+1.  A public input's value is wire
   p mod 9 of a public-input row (every second row from off on); it is routed through that wire or, wires
   6 to 8 being unrouted, through wires 0 to 2 of the row after. *)
EXTENDS TraceBase, Wiring, Fp
H_ == TLCEval(ndJsonDeserialize(IOEnv.HDR))
ToSet(s) == {s[j] : j \in DOMAIN s}

NT(r) == 9 * r.n + r.nv + r.npi
WireId(g, m) == 9 * g + m + 1
PiId(r, p) == 9 * r.n + r.nv + p + 1
PiRow(r, p) == r.off + 2 * (p \div 9)
Route(r, p) == IF p % 9 < 6 THEN WireId(PiRow(r, p), p % 9) ELSE WireId(PiRow(r, p) + 1, (p % 9) - 6)
Own(r, p) == WireId(PiRow(r, p), p % 9)
Routes(r) == [k \in 1..r.npi |-> <<PiId(r, k - 1), Route(r, k - 1)>>]
Owns(r) == [k \in 1..r.npi |-> <<PiId(r, k - 1), Own(r, k - 1)>>]

\* the classes the wiring enforces, and those of equal values
Lab(r) == Classes(NT(r), Routes(r) \o r.copies)
ValLab(r) == Classes(NT(r), Routes(r) \o Owns(r) \o r.copies)

\* sigma counts positions from zero: wire i of row g is i*n + g
Pos(r, j) == WireId((j - 1) % r.n, (j - 1) \div r.n)
PosLab(r, l) == TLCEval([j \in 1..(6 * r.n) |-> l[Pos(r, j)]])
OneUp(s) == TLCEval([j \in DOMAIN s |-> s[j] + 1])

\* a wire which is not routed cannot share its class with another wire
Refuse(r, l) == \E g \in 0..(r.n - 1), m \in 6..8 :
                  \E w \in 1..(9 * r.n) : w # WireId(g, m) /\ l[w] = l[WireId(g, m)]

Wiring(r, h, l) ==
  LET pl == PosLab(r, l) F == h.F pw == TLCEval(FPowers(F, r.root, r.n)) IN
  /\ r.deg = r.n
  /\ Len(r.sigma) = 6 * r.n
  /\ WiringOf(pl, OneUp(r.sigma))
  /\ \A j \in 1..(6 * r.n) :
       r.sv[((j - 1) \div r.n) + 1][((j - 1) % r.n) + 1]
         = FMul(F, h.ks[(r.sigma[j] \div r.n) + 1], pw[(r.sigma[j] % r.n) + 1])
  /\ r.s8
  \* the positions' identifiers are pairwise distinct on a field where the shifts make that overwhelming
  /\ F.big => Cardinality({FMul(F, h.ks[k], pw[g]) : k \in 1..6, g \in 1..r.n}) = 6 * r.n

RECURSIVE FProd(_, _, _)
FProd(F, s, j) == IF j = 0 THEN F1(F) ELSE FMul(F, s[j], FProd(F, s, j - 1))
Product(r, h, l) ==
  LET F == h.F n == r.n pl == PosLab(r, l) pw == TLCEval(FPowers(F, r.root, n))
      id(j) == FMul(F, h.ks[(j \div n) + 1], pw[(j % n) + 1])
      fac(g, m, j) == FAdd(F, FAdd(F, r.w[g][m], FMul(F, r.beta, id(j))), r.gamma)
      num == TLCEval([g \in 1..n |-> FProd(F, [m \in 1..6 |-> fac(g, m, (m - 1) * n + g - 1)], 6)])
      den == TLCEval([g \in 1..n |-> FProd(F, [m \in 1..6 |-> fac(g, m, r.sigma[(m - 1) * n + g])], 6)])
      val(j) == r.w[((j - 1) % n) + 1][((j - 1) \div n) + 1]
      const == \A j \in 1..(6 * n) : val(r.sigma[j] + 1) = val(j)
  IN
  /\ WiringOf(pl, OneUp(r.sigma))
  /\ IF r.undef THEN \E g \in 1..n : den[g] = F0(F)
     ELSE LET closes == FMul(F, r.r[n], num[n]) = den[n] IN
          /\ Len(r.r) = n
          /\ r.r[1] = F1(F)
          /\ \A g \in 1..(n - 1) : FMul(F, r.r[g + 1], den[g]) = FMul(F, r.r[g], num[g])
          /\ const => closes
          /\ F.big => (closes = const)

Parts(r, l) ==
  /\ \A t \in 1..NT(r) : /\ ToSet(r.members[t]) = {u \in 1..NT(r) : l[u] = l[t]}
                         /\ Len(r.members[t]) = Cardinality(ToSet(r.members[t]))
  /\ WiringOf(PosLab(r, l), OneUp(r.sigma))

(* Witness generation.  An item computes classes from classes. *)
Dep(l, s) == {l[s[j]] : j \in DOMAIN s}
GenItem(l, g) == [d |-> Dep(l, g.d), o |-> {l[g.o[j][1]] : j \in DOMAIN g.o}]
GateItem(l, g) == IF g.k = "arith"
  THEN [d |-> {l[WireId(g.g, 0)], l[WireId(g.g, 1)], l[WireId(g.g, 2)]}, o |-> {l[WireId(g.g, 3)]}]
  ELSE [d |-> {}, o |-> {l[WireId(g.g, 0)]}]
RECURSIVE Reach(_, _)
Reach(items, known) ==
  LET more == TLCEval(known \cup UNION {it.o : it \in {x \in items : x.d \subseteq known}})
  IN IF more = known THEN known ELSE Reach(items, more)

RECURSIVE SumProd(_, _, _, _, _)
SumProd(F, b, v, j, acc) == IF j > Len(v) THEN acc ELSE SumProd(F, b, v, j + 1, FAdd(F, acc, FMul(F, b[j], v[j])))
GenValue(F, o, v) == FAdd(F, SumProd(F, o[3], v, 1, o[2]), FMul(F, o[4], FProd(F, v, Len(v))))

WitnessOK(r, h) ==
  LET F == h.F l == TLCEval(ValLab(r))
      blind == (9 * (r.off - 3) + 1)..(9 * r.off)
      gates == TLCEval({GateItem(l, r.gates[j]) : j \in DOMAIN r.gates})
      gens == TLCEval([j \in DOMAIN r.gens |-> GenItem(l, r.gens[j])])
      start == TLCEval({l[r.inputs[j][1]] : j \in DOMAIN r.inputs})
      known == TLCEval(Reach(gates \cup ToSet(gens), start))
      val == r.r
      k(t) == val[t] # <<>>
  IN
  /\ r.deg = r.n
  /\ Len(val) = NT(r)
  \* exactly the computable targets are known, and a class has one value
  /\ \A t \in (1..NT(r)) \ blind : k(t) = (l[t] \in known)
  /\ \A t \in blind : k(t)
  /\ \A t \in 1..NT(r) : val[t] = val[l[t]]
  /\ \A j \in DOMAIN r.inputs : val[r.inputs[j][1]] = <<r.inputs[j][2]>>
  \* values are those the generators and the gates define
  /\ \A j \in DOMAIN r.gens : LET g == r.gens[j] IN
       (\A d \in ToSet(g.d) : k(d)) =>
         LET v == TLCEval([m \in DOMAIN g.d |-> val[g.d[m]][1]]) IN
         \A m \in DOMAIN g.o : val[g.o[m][1]] = <<GenValue(F, g.o[m], v)>>
  /\ \A j \in DOMAIN r.gates : LET g == r.gates[j] w(n) == val[WireId(g.g, n)] IN
       IF g.k = "const" THEN w(0) = <<g.c[1]>>
       ELSE (k(WireId(g.g, 0)) /\ k(WireId(g.g, 1)) /\ k(WireId(g.g, 2))) =>
            w(3) = <<FAdd(F, FMul(F, g.c[1], FMul(F, w(0)[1], w(1)[1])), FMul(F, g.c[2], w(2)[1]))>>
  \* each generator whose dependencies are known ran once, after what it depends on
  /\ Len(r.runs) = Cardinality(ToSet(r.runs))
  /\ ToSet(r.runs) = {j \in DOMAIN r.gens : gens[j].d \subseteq known}
  /\ \A m \in DOMAIN r.runs :
       gens[r.runs[m]].d \subseteq Reach(gates \cup {gens[r.runs[q]] : q \in 1..(m - 1)}, start)
  \* the table
  /\ r.same
  /\ \A g \in 0..(r.n - 1), m \in 0..8 : WireId(g, m) \in blind \/
       r.table[g + 1][m + 1] = IF k(WireId(g, m)) THEN val[WireId(g, m)][1] ELSE F0(F)

CheckRec(r) == LET h == H_[r.c] IN
  /\ r.ok
  /\ CASE r.op = "wiring" -> LET l == TLCEval(Lab(r)) IN
            /\ r.refused = Refuse(r, l)
            /\ ~r.refused => Wiring(r, h, l)
       [] r.op = "product" -> Product(r, h, Lab(r))
       [] r.op = "parts" -> Parts(r, Lab(r))
       [] r.op = "witness" -> WitnessOK(r, h)
       [] OTHER -> FALSE
Conform == i = 0 \/ Report(CheckRec(Rec))
=============================================================================
