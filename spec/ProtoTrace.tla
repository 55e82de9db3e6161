------------------------------ MODULE ProtoTrace ------------------------------
(* Verdicts of the implementation's verifier, the challenges it derives, keys, tables and blinding, against
   the protocol. *)
EXTENDS TraceBase, Plonk, FiniteSets
Hdr == ndJsonDeserialize(IOEnv.HDR)

MkSetting(h) ==
  LET R == [F |-> h.R.F, alpha |-> h.R.alpha, inv |-> h.R.inv, ks |-> h.R.ks, mds |-> Mds(h.R.F, h.R.w)] IN
  [E |-> h.E, zetas |-> h.zetas, R |-> R,
   G |-> [F |-> h.E.S, mds |-> Mds(h.E.S, 4), A |-> h.GA, zeta |-> h.Gzeta], ks |-> h.ks, gs |-> h.gs]
Settings == [j \in 1..Len(Hdr) |-> MkSetting(Hdr[j])]

ChOk(F, spec, r) ==
  IF ~spec.ok THEN ~r.ok /\ ~r.panic
  ELSE /\ r.ok
       /\ r.beta = spec.beta /\ r.gamma = spec.gamma /\ r.alpha = spec.alpha /\ r.zeta = spec.zeta
       /\ r.v = spec.v /\ r.u = spec.u /\ r.us = spec.us /\ r.sch = spec.sch
       /\ RootsOf(F, r.rs, spec.sq)

VerifyOk(r) ==
  LET X == Settings[r.c]
      t == Transcript(X, r.pis, r.pf, r.old)
      v == ReasonCh(X, r.vk, r.pis, r.pf, r.old, r.ch.rs, r.deep, t) IN
  /\ r.res = IF v = "accept" THEN "accept" ELSE "reject"
  /\ v \notin {"shape", "points", "old"} => ChOk(X.E.S, t, r.ch)
  \* what a deferred verification hands on
  /\ r.next = IF v = "accept" /\ ~r.deep THEN <<[g |-> r.pf.G, us |-> r.ch.rs]>> ELSE <<>>
  /\ "want" \in DOMAIN r => v = r.want

(* The challenges are the transcript's; with a message altered, exactly those drawn after it change. *)
ChList(F, t) == <<t.beta, t.gamma, t.alpha, t.zeta, t.v, t.u, t.us>> \o [j \in 1..Len(t.rs) |-> FSq(F, t.rs[j])] \o <<t.sch>>
ChalOk(r) ==
  LET X == Settings[r.c] F == X.E.S t == Transcript(X, r.pis, r.pf, r.old) IN
  /\ ChOk(F, t, r.ch)
  /\ "from" \in DOMAIN r /\ t.ok =>
       LET a == ChList(F, r.ch) b == ChList(F, r.bch) IN
       /\ Len(a) = Len(b)
       /\ \A j \in 1..Len(a) : IF j <= r.from THEN a[j] = b[j] ELSE a[j] # b[j]

(* A key commits to the circuit's constants and wiring. *)
Interpolate(F, vals, w) ==
  LET n == Len(vals) ws == FPowers(F, FInv(F, w), n) ni == FInv(F, FNat(F, n))
  IN TLCEval([j \in 1..n |-> FMul(F, ni, FPoly(F, vals, ws[j]))])
Commit(X, vals, w) == CMsm(X.E, Interpolate(X.E.S, vals, w), SubSeq(X.gs, 1, Len(vals)))
VkOk(r) ==
  LET X == Settings[r.c] vk == r.vk IN
  /\ vk = r.k2
  /\ vk.n = r.gates /\ vk.npi = r.npi
  /\ vk.cc = [j \in 1..NumConsts |-> Commit(X, r.consts[j], vk.root)]
  /\ vk.cs = [j \in 1..NumRouted |-> Commit(X, r.sigmas[j], vk.root)]

(* Does a table of wires satisfy a circuit, for these public inputs?  circ: k, the constants of every row;
   sig, the values of the permutation polynomials; to, the wire (column from 1, row from 0) each stands for. *)
TableOk(X, circ, vk, pis, tb) ==
  LET F == X.E.S n == Len(tb) IN
  /\ \A j \in 1..n : Holds(F, AllConstraints(X.G, circ.k[j], tb[j], tb[(j % n) + 1], tb[((j - 1 + GridWidth) % n) + 1]))
  /\ \A col \in 1..NumRouted : \A j \in 1..n :
       LET t == circ.to[col][j] IN tb[j][col] = tb[t[2] + 1][t[1]]
  /\ \A k \in 0..(NumPiGates(vk.npi) * NumWires - 1) :
       tb[vk.off + 2 * (k \div NumWires) + 1][(k % NumWires) + 1] = IF k < Len(pis) THEN pis[k + 1] ELSE F0(F)
WiringOk(X, circ, vk) ==
  LET F == X.E.S IN
  \A col \in 1..NumRouted : \A j \in 1..vk.n : LET t == circ.to[col][j] IN
    t[1] \in 1..NumRouted /\ circ.sig[col][j] = FMul(F, X.ks[t[1]], Pow(F, vk.root, t[2]))
TabOk(r) ==
  LET X == Settings[r.c] IN
  /\ WiringOk(X, r.circ, r.vk)
  /\ (r.res = "accept") = TableOk(X, r.circ, r.vk, r.pis, r.table)
  /\ VerifyOk(r)

(* ------------------------------------------------------------------ blinding *)
Distinct(s) == Cardinality({s[j] : j \in 1..Len(s)}) = Len(s)
(* A number below 2^100 does not come out of a uniform draw. *)
Large(F, x) == ~F.big \/ FLt(F, Pow(F, FNat(F, 2), 100), x)
(* At least three rows hold random values on all wires, fresh ones in every generation; they are rows
   without constraints, wired to nothing. *)
RowsOk(r) ==
  LET X == Settings[r.c] F == X.E.S Z == Len(r.tables) n == r.vk.n
      at(j, col) == [k \in 1..Z |-> r.tables[k][j][col]]
      Random == {j \in 1..n : \A col \in 1..NumWires : Distinct(at(j, col)) /\ \A k \in 1..Z : Large(F, at(j, col)[k])}
      Buffer(j) == \A m \in 1..Len(Prefix("buf")) : r.circ.k[j][m] = FNat(F, Prefix("buf")[m])
      Free(j) == Buffer(j) /\ \A col \in 1..NumRouted : r.circ.to[col][j] = <<col, j - 1>>
      Blind == {j \in Random : Free(j)}
  IN /\ Cardinality(Blind) >= 3
     /\ Distinct([m \in 1..(Z * n * NumWires) |-> LET k == (m - 1) \div (n * NumWires) + 1
                                                     j == (((m - 1) \div NumWires) % n) + 1
                                                     col == ((m - 1) % NumWires) + 1
                                                 IN IF j \in Blind THEN <<r.tables[k][j][col]>> ELSE <<k, j, col>>])
     /\ \A k \in 1..Z : \A j \in 1..n : j \notin Blind => r.tables[k][j] = r.tables[1][j]
     /\ \A k \in 1..Z : \A j \in 1..n :
          Holds(F, AllConstraints(X.G, r.circ.k[j], r.tables[k][j], r.tables[k][(j % n) + 1], r.tables[k][((j - 1 + GridWidth) % n) + 1]))

(* Proofs of one table: each committed polynomial with a blinding term of its own, everything fresh. *)
CommitsOf(p) == p.cw \o <<p.cz>> \o p.ct \o <<p.cq>>
FreshOk(r) ==
  LET X == Settings[r.c] E == X.E Z == Len(r.proofs)
      pf(k) == r.proofs[k].pf
      terms == TLCEval([k \in 1..Z |-> [j \in 1..Len(r.proofs[k].polys) |->
                 CAdd(E, CommitsOf(pf(k))[j], CNeg(E, CMsm(E, r.proofs[k].polys[j], SubSeq(X.gs, 1, r.n))))]])
      m == Len(terms[1])
      pts(k) == CommitsOf(pf(k)) \o pf(k).L \o pf(k).R \o <<pf(k).G, pf(k).sr>>
      np == Len(pts(1))
      \* chunks of the quotient which are not zero for want of degree
      NumChunks(k) == Cardinality({j \in 1..QuotientChunks : \E q \in 1..r.n : r.proofs[k].polys[NumWires + 1 + j][q] # F0(E.S)})
      els(k) == <<pf(k).z1, pf(k).z2>> \o [j \in 1..3 |-> pf(k).os[j].z] \o pf(k).os[1].w \o pf(k).os[2].w \o pf(k).os[3].w
                  \o [j \in 1..(3 * NumChunks(k)) |-> pf(k).os[((j - 1) \div NumChunks(k)) + 1].t[((j - 1) % NumChunks(k)) + 1]]
  IN /\ Z >= 2
     /\ Distinct([q \in 1..(Z * m) |-> terms[((q - 1) \div m) + 1][((q - 1) % m) + 1]])
     /\ \A k \in 1..Z : \A j \in 1..m : terms[k][j] # <<>>
     /\ Distinct([q \in 1..(Z * np) |-> pts(((q - 1) \div np) + 1)[((q - 1) % np) + 1]])
     /\ \A k, l \in 1..Z : k < l => \A j \in 1..Len(els(k)) : els(k)[j] # els(l)[j]

CommitOk(r) ==
  LET X == Settings[r.c] E == X.E Z == Len(r.cs) P == CMsm(E, r.p, SubSeq(X.gs, 1, r.n)) H == X.gs[r.n + 1] IN
  /\ \A k \in 1..Z : r.cs[k].P = CAdd(E, P, CMul(E, r.cs[k].r, H))
  /\ IF r.blind THEN Distinct([k \in 1..Z |-> r.cs[k].r]) /\ \A k \in 1..Z : Large(E.S, r.cs[k].r)
     ELSE \A k \in 1..Z : r.cs[k].r = F0(E.S)

IpaFreshOk(r) ==
  LET Z == Len(r.ps) IN
  /\ Z >= 2
  /\ Distinct([k \in 1..Z |-> r.ps[k].L[1]] \o [k \in 1..Z |-> r.ps[k].R[1]])
  /\ Distinct([k \in 1..Z |-> r.ps[k].sr])
  /\ Distinct([k \in 1..Z |-> r.ps[k].z1])
  /\ Distinct([k \in 1..Z |-> r.ps[k].z2])

CheckRec(r) ==
  CASE r.op = "verify" -> VerifyOk(r)
    [] r.op = "chal" -> ChalOk(r)
    [] r.op = "vk" -> VkOk(r)
    [] r.op = "table" -> TabOk(r)
    [] r.op = "rows" -> RowsOk(r)
    [] r.op = "fresh" -> FreshOk(r)
    [] r.op = "commit" -> CommitOk(r)
    [] r.op = "ipa" -> IpaFreshOk(r)
    [] OTHER -> FALSE    \* e.g. the prover failed
Conform == i = 0 \/ Report(CheckRec(Rec))
=============================================================================
