------------------------------ MODULE GateTrace ------------------------------
(* The gates of the implementation against what they stand for. *)
EXTENDS TraceBase, GateSem, Rescue, FiniteSets
G_ == TLCEval(LET h == ndJsonDeserialize(IOEnv.HDR) IN
  [j \in 1..Len(h) |-> [F |-> h[j].F, mds |-> Mds(h[j].F, 4), A |-> h[j].A, zeta |-> h[j].zeta]])

IsPrefix(p, q) == Len(p) <= Len(q) /\ \A j \in 1..Len(p) : p[j] = q[j]
(* Substitution of values for wire positions: 0..8 own, 9..17 right, 18..26 below. *)
Subst(s, free, vals, base) == TLCEval([j \in 1..9 |->
  IF \E k \in 1..Len(free) : free[k] = base + j - 1 THEN vals[CHOOSE k \in 1..Len(free) : free[k] = base + j - 1] ELSE s[j]])

RECURSIVE Pairs(_)
Pairs(n) == IF n = 0 THEN <<>> ELSE <<"pi", "buf">> \o Pairs(n - 1)
RECURSIVE Pow2(_, _)
Pow2(n, k) == IF k >= n THEN k ELSE Pow2(n, 2 * k)
(* The rows of a built circuit: the program's gates, three blinding rows, a pair of rows for every nine
   public inputs, and padding. *)
Layout(prog, npi) == LET s == prog \o <<"buf", "buf", "buf">> \o Pairs((npi + 8) \div 9)
                     IN s \o [j \in 1..(Pow2(Len(s), 1) - Len(s)) |-> "buf"]

CheckRec(r) == LET G == G_[r.s] F == G.F IN
  /\ r.ok
  /\ CASE r.op = "eval" -> r.r = Sem(G, r.g, r.c, r.w, r.rt, r.b)
       [] r.op = "sat" ->
            LET k == Len(r.free) IN
            {r.r[j] : j \in 1..Len(r.r)} =
              {v \in [1..k -> 0..(F.p - 1)] :
                 Sem(G, r.g, r.c, Subst(r.w, r.free, v, 0), Subst(r.rt, r.free, v, 9), Subst(r.b, r.free, v, 18))}
       [] r.op = "gen" -> /\ r.r.keep
                          /\ \A j \in 1..Len(r.d) : r.r.w[r.d[j] + 1] = r.in[r.d[j] + 1]
                          /\ Sem(G, r.g, r.c, r.r.w, r.r.rt, r.r.b)
       [] r.op = "rec" -> /\ r.r.rec = r.r.nat
                          /\ r.r.recf = r.r.natf
                          /\ r.g # "all" => Holds(F, r.r.nat) = Sem(G, r.g, r.c, r.w, r.rt, r.b)
       [] r.op = "prefix" -> \A j, k \in 1..Len(r.ps) : j # k => ~IsPrefix(r.ps[j][2], r.ps[k][2])
       [] r.op = "layout" ->
            LET l == Layout(r.prog, r.npi) IN
            /\ r.r.npi = r.npi
            /\ r.r.off = Len(r.prog) + 3
            /\ Len(r.r.on) = Len(l)
            /\ \A j \in 1..Len(l) : r.r.on[j] = <<l[j]>>                 \* exactly the gate placed there is selected
            /\ \A j \in 1..Len(r.prog) :                                  \* with the constants it was given
                 LET m == Len(Prefix(l[j])) IN
                 /\ IsPrefix(r.cfg[j], SubSeq(r.r.c[j], m + 1, 6))
                 /\ \A n \in (m + Len(r.cfg[j]) + 1)..6 : r.r.c[j][n] = F0(F)
            /\ \A j \in 1..Len(l), n \in 1..6 : r.r.poly[n][j] = r.r.c[j][n]
       [] OTHER -> FALSE
Conform == i = 0 \/ Report(CheckRec(Rec))
=============================================================================
