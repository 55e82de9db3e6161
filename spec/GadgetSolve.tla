----------------------------- MODULE GadgetSolve -----------------------------
(* Every way to satisfy a circuit.  A circuit is what the code built: the constants of its rows, and for
   every wire the class of wires the permutation forces to be equal.  Given values of its inputs, the
   specification derives what the constraints of single rows force (Fire), and branches over the possible
   values where nothing is forced: its leaves are all the satisfying assignments (if no branch had to be
   sampled).  At every leaf, the results must be those of the program (GadgetSem); and where the program is
   satisfiable, the table generated by the code must be a satisfying one.  All numbers are BigNats. *)
EXTENDS Integers, Gates, GadgetSem, Json, IOUtils, TLC, SequencesExt
LOCAL BN == INSTANCE BigNat
LOCAL RS == INSTANCE Rescue
Refused(c) == "refused" \in DOMAIN c
Full(c) == IF Refused(c) THEN c
           ELSE LET m == RS!Mds(c.F, 4) IN
                TLCEval([[c EXCEPT !.G = [F |-> c.F, mds |-> m, A |-> c.G.A, B |-> c.G.B, zeta |-> c.G.zeta]]
                          EXCEPT !.R = IF DOMAIN c.R = {} THEN c.R ELSE c.R @@ [mds |-> m]])
(* read and analysed once, at the start *)
ASSUME TLCSet(1, LET raw == ndJsonDeserialize(IOEnv.HDR) IN TLCEval([k \in 1..Len(raw) |-> Full(raw[k])]))
ASSUME TLCSet(3, TLCEval(ndJsonDeserialize(IOEnv.TRACE)))
Circ == TLCGet(1)
Jobs == TLCGet(3)

U == <<-1>>   \* unknown
Selected(c) == LET s == {g \in GateNames : \A k \in 1..Len(Prefix(g)) : c[k] # (IF Prefix(g)[k] = 1 THEN <<>> ELSE <<1>>)}
               IN IF s = {} THEN "buf" ELSE CHOOSE g \in s : TRUE
Wrap(n, r) == ((r - 1) % n) + 1
RowOf(C, r) == LET g == Selected(C.cs[r]) IN
  [g |-> g, r |-> r, c |-> SubSeq(C.cs[r], Len(Prefix(g)) + 1, 6), w |-> C.cls[r],
   x |-> C.cls[Wrap(C.n, r + 1)], y |-> C.cls[Wrap(C.n, r + 65)]]

(* ------------------------------------------------------------------------------------- ranges *)
(* What rows say about the size of a class, whatever the assignment: rng[k] bounds it (U: no bound known). *)
SetMin(rng, k, v) == IF rng[k] = U \/ Lt(v, rng[k]) THEN [rng EXCEPT ![k] = v] ELSE rng
SetMins(rng, ks, v) == FoldLeft(LAMBDA m, k : SetMin(m, k, v), rng, ks)
SetIfBelow(F, rng, k, v) == IF Lt(v, F.p) THEN SetMin(rng, k, v) ELSE rng
RangeRow(F, rng, q) ==
  LET w == q.w IN
  CASE q.g = "const" -> SetMin(rng, w[1], q.c[1])
    [] q.g = "base4" ->
         LET r1 == SetMins(rng, SubSeq(w, 3, 9), <<3>>) IN
         IF rng[w[1]] = U THEN r1
         ELSE SetIfBelow(F, r1, w[2], BN!Add(BN!Mul(BN!FromNat(16384), rng[w[1]]), BN!FromNat(16383)))
    [] q.g = "arith" ->
         LET alpha == q.c[1]  beta == q.c[2]
             r1 == IF w[1] = w[2] /\ w[1] = w[3] /\ alpha = <<1>> /\ beta = BN!Sub(F.p, <<1>>) /\ rng[w[4]] = <<>>
                   THEN SetMin(rng, w[1], <<1>>) ELSE rng
         IN IF (alpha # <<>> /\ (r1[w[1]] = U \/ r1[w[2]] = U)) \/ (beta # <<>> /\ r1[w[3]] = U) THEN r1
            ELSE SetIfBelow(F, r1, w[4], BN!Add(IF alpha = <<>> THEN <<>> ELSE BN!Mul(alpha, BN!Mul(r1[w[1]], r1[w[2]])),
                                                IF beta = <<>> THEN <<>> ELSE BN!Mul(beta, r1[w[3]])))
    [] q.g = "add" -> LET r1 == SetMin(rng, w[7], <<1>>) IN
                      IF rng[w[3]] = U THEN r1 ELSE SetIfBelow(F, r1, w[4], BN!Add(BN!Mul(<<2>>, rng[w[3]]), <<1>>))
    [] OTHER -> rng
Ranges(F, rows, rng) == FoldLeft(LAMBDA m, q : RangeRow(F, m, q), rng, rows)

(* in how many rows each class occurs *)
Classes(q) == ToSet(q.w) \cup (IF q.g \in {"base4", "arith", "const", "dbl"} THEN {} ELSE ToSet(SubSeq(q.x, 1, 4)) \cup ToSet(SubSeq(q.y, 1, 4)))
Occ(rows, o) == FoldLeft(LAMBDA m, q : FoldLeft(LAMBDA n, k : [n EXCEPT ![k] = @ + 1], m, SetToSeq(Classes(q) \ {0})), o, rows)
Static(C) == IF Refused(C) THEN [rows |-> <<>>, rng |-> <<>>, own |-> <<>>] ELSE
             LET all == [r \in 1..C.n |-> RowOf(C, r)]
                 rows == TLCEval(SelectSeq(all, LAMBDA q : q.g # "buf"))
                 r1 == Ranges(C.F, rows, TLCEval([k \in 1..C.m |-> U]))
                              occ == Occ(rows, TLCEval([k \in 1..C.m |-> 0]))
                 vs == UNION {{v[k] : k \in 1..Len(v)} : v \in {C.vals[j] : j \in 1..Len(C.vals)}}
             IN [rows |-> rows, rng |-> Ranges(C.F, rows, r1),
                 own |-> TLCEval([k \in 1..C.m |-> occ[k] = 1 /\ k \notin vs])]
ASSUME TLCSet(2, TLCEval([k \in 1..Len(TLCGet(1)) |-> TLCEval(Static(TLCGet(1)[k]))]))
St == TLCGet(2)

(* ------------------------------------------------------------------------------------- forcing *)
(* the assignment with these classes set, <<>> if it says otherwise *)
Puts(a, kv) == FoldLeft(LAMBDA b, t : IF b = <<>> THEN b ELSE IF b[t[1]] = U THEN [b EXCEPT ![t[1]] = t[2]] ELSE IF b[t[1]] = t[2] THEN b ELSE <<>>, a, kv)
Done(a) == [s |-> IF a = <<>> THEN "bad" ELSE "done", a |-> a]
Prog(a) == [s |-> IF a = <<>> THEN "bad" ELSE "prog", a |-> a]
Bad == [s |-> "bad", a |-> <<>>]
Open(a) == [s |-> "open", a |-> a]

(* Digits: v = sum of coef * unknown, modulo p, the unknowns bounded.  If the sum is always below p and
   every coefficient above what the smaller ones can add up to, the unknowns are the mixed-radix digits of v.
   ts: <<coef, class, bound>>, the coefficients decreasing. *)
RECURSIVE DigitCap(_, _)
DigitCap(ts, j) == IF j > Len(ts) THEN <<>> ELSE BN!Add(BN!Mul(ts[j][1], ts[j][3]), DigitCap(ts, j + 1))
Radix(F, ts) == /\ \A j \in 1..Len(ts) : ts[j][3] # U
                /\ \A j \in 1..Len(ts) : Lt(DigitCap(ts, j + 1), ts[j][1])
                /\ Lt(DigitCap(ts, 1), F.p)
                /\ \A j, k \in 1..Len(ts) : j # k => ts[j][2] # ts[k][2]
RECURSIVE Digits(_, _, _)
Digits(v, ts, j) == IF j > Len(ts) THEN (IF v = <<>> THEN <<>> ELSE <<U>>)
                    ELSE LET d == BN!Div(v, ts[j][1]) IN
                         IF Lt(ts[j][3], d) THEN <<U>>
                         ELSE <<<<ts[j][2], d>>>> \o Digits(BN!Sub(v, BN!Mul(d, ts[j][1])), ts, j + 1)
Split(F, a, v, ts) == LET d == TLCEval(Digits(v, ts, 1)) IN
                      IF \E k \in 1..Len(d) : d[k] = U THEN <<>> ELSE Puts(a, d)

(* An arithmetic row with at most one unknown class u is A u^2 + B u + C = 0. *)
ArithUnknown(q, a) ==
  LET w == q.w
      zero(k) == a[w[k]] = <<>>
      t1 == IF q.c[1] = <<>> \/ zero(1) \/ zero(2) THEN {} ELSE {w[1], w[2]}
      t2 == IF q.c[2] = <<>> THEN {} ELSE {w[3]}
  IN {k \in t1 \cup t2 \cup {w[4]} : a[k] = U}
Quad(F, q, a, u) ==
  LET w == q.w
      k(j) == IF a[w[j]] = U THEN <<>> ELSE a[w[j]]      \* also where it does not matter
      l(j) == IF w[j] = u THEN <<1>> ELSE <<>>
      dead == a[w[1]] = <<>> \/ a[w[2]] = <<>> \/ q.c[1] = <<>>
      p2 == IF dead THEN <<>> ELSE FMul(F, q.c[1], FMul(F, l(1), l(2)))
      p1 == IF dead THEN <<>> ELSE FMul(F, q.c[1], FAdd(F, FMul(F, l(1), k(2)), FMul(F, k(1), l(2))))
      p0 == IF dead THEN <<>> ELSE FMul(F, q.c[1], FMul(F, k(1), k(2)))
  IN <<p2, FSub(F, FAdd(F, p1, FMul(F, q.c[2], l(3))), l(4)), FSub(F, FAdd(F, p0, FMul(F, q.c[2], k(3))), k(4))>>
Roots(F, Q) ==
  IF Q[1] = <<>> THEN {FNeg(F, FDiv(F, Q[3], Q[2]))}
  ELSE LET disc == FSub(F, FSq(F, Q[2]), FMul(F, <<4>>, FMul(F, Q[1], Q[3])))
           i2 == FInv(F, FMul(F, <<2>>, Q[1]))
           rt(s) == FMul(F, FSub(F, s, Q[2]), i2)
       IN IF ~FIsSquare(F, disc) THEN {}
          ELSE LET s == IF Q[3] = <<>> THEN Q[2] ELSE IF disc = <<>> THEN <<>> ELSE FSqrt(F, disc) IN {rt(s), rt(FNeg(F, s))}

Arith(F, rng, q, a) ==
  LET un == ArithUnknown(q, a)
      w == q.w
      kn(k) == a[k] # U
  IN IF un = {} THEN (IF Quad(F, q, a, 0)[3] = <<>> THEN Done(a) ELSE Bad)
     ELSE IF \E u \in un : un = {u}
     THEN LET u == CHOOSE u \in un : TRUE
              Q == TLCEval(Quad(F, q, a, u))
          IN IF Q[1] = <<>> /\ Q[2] = <<>> THEN (IF Q[3] = <<>> THEN Done(a) ELSE Bad)
             ELSE LET rs == Roots(F, Q) IN
                  IF rs = {} THEN Bad
                  ELSE IF \E v \in rs : rs = {v} THEN Done(Puts(a, <<<<u, CHOOSE v \in rs : TRUE>>>>)) ELSE Open(a)
     ELSE \* the result known: digits, if one factor is known
          IF ~kn(w[4]) \/ un # {w[3], IF kn(w[1]) THEN w[2] ELSE w[1]} \/ w[1] = w[2] \/ (~kn(w[1]) /\ ~kn(w[2])) \/ w[4] \in {w[1], w[2], w[3]} THEN Open(a)
          ELSE LET uk == IF kn(w[1]) THEN w[2] ELSE w[1]
                   c1 == FMul(F, q.c[1], IF kn(w[1]) THEN a[w[1]] ELSE a[w[2]])
                   t1 == <<c1, uk, rng[uk]>>
                   t2 == <<q.c[2], w[3], rng[w[3]]>>
                   ts == IF Lt(c1, q.c[2]) THEN <<t2, t1>> ELSE <<t1, t2>>
               IN IF Radix(F, ts) THEN Done(Split(F, a, a[w[4]], ts)) ELSE Open(a)

(* Linear rows: sum of co[k] * class k over the known and unknown ones equals the target. *)
RECURSIVE KnownSum(_, _, _, _)
KnownSum(F, a, ts, j) == IF j > Len(ts) THEN <<>>
                         ELSE FAdd(F, IF a[ts[j][2]] = U THEN <<>> ELSE FMul(F, ts[j][1], a[ts[j][2]]), KnownSum(F, a, ts, j + 1))
Linear(F, a, tgt, ts) ==
  LET un == TLCEval(SelectSeq(ts, LAMBDA t : a[t[2]] = U))
      rest == KnownSum(F, a, ts, 1)
  IN IF un = <<>> THEN Done(Puts(a, <<<<tgt, rest>>>>))
     ELSE IF a[tgt] = U THEN Open(a)
     ELSE LET v == FSub(F, a[tgt], rest) IN
          IF Len(un) = 1 THEN LET x == FDiv(F, v, un[1][1]) IN
                              IF un[1][3] # U /\ Lt(un[1][3], x) THEN Bad ELSE Done(Puts(a, <<<<un[1][2], x>>>>))
          ELSE IF Radix(F, un) THEN Done(Split(F, a, v, un)) ELSE Open(a)

Pow4 == [k \in 0..7 |-> <<<<1>>, <<4>>, <<16>>, <<64>>, <<256>>, <<1024>>, <<0, 1>>, <<0, 4>>>>[k + 1]]
Third2(F, x1, y1, x2, l) == LET x3 == FSub(F, FSub(F, FSq(F, l), x1), x2) IN <<x3, FSub(F, FMul(F, l, FSub(F, x1, x3)), y1)>>

Fire(C, rng, q, a) ==
  LET F == C.F  G == C.G
      w == q.w  x == q.x
      v(k) == a[w[k]]
      kn(k) == a[w[k]] # U
  IN
  CASE q.g = "const" -> Done(Puts(a, <<<<w[1], q.c[1]>>>>))
    [] q.g = "arith" -> Arith(F, rng, q, a)
    [] q.g = "pi" -> LET kv == SelectSeq([j \in 1..6 |-> LET l == IF j <= 3 THEN w[6 + j] ELSE x[j - 3]
                                                               r == IF j <= 3 THEN x[j] ELSE w[3 + j] IN <<r, a[l]>>], LAMBDA t : t[2] # U)
                         b == Puts(a, kv)
                     IN IF b = <<>> THEN Bad
                        ELSE IF \A j \in 1..3 : b[w[6 + j]] # U THEN Done(b) ELSE IF b = a THEN Open(a) ELSE Prog(b)
    [] q.g = "base4" ->
         IF ~kn(2) /\ (~kn(1) \/ ~kn(3)) THEN (IF \E j \in 3..9 : kn(j) /\ Lt(<<3>>, v(j)) THEN Bad ELSE Open(a))
         ELSE IF \E j \in 3..9 : kn(j) /\ Lt(<<3>>, v(j)) THEN Bad
         ELSE Linear(F, a, w[2], <<<<Pow4[7], w[1], rng[w[1]]>>>> \o [j \in 1..7 |-> <<Pow4[7 - j], w[2 + j], <<3>>>>])
    [] q.g = "ra" ->
         LET kv == SelectSeq([j \in 1..8 |-> LET k == (j + 1) \div 2 IN
                                IF j % 2 = 1 THEN (IF a[w[k]] = U THEN <<0, U>> ELSE <<w[4 + k], FExp(F, a[w[k]], C.inv5)>>)
                                ELSE (IF a[w[4 + k]] = U THEN <<0, U>> ELSE <<w[k], P5(F, a[w[4 + k]])>>)], LAMBDA t : t[2] # U)
             b == Puts(a, kv)
         IN IF b = <<>> THEN Bad
            ELSE IF \A k \in 1..4 : b[w[4 + k]] # U
            THEN LET s == [k \in 1..4 |-> b[w[4 + k]]] IN
                 Done(Puts(b, [k \in 1..4 |-> <<x[k], FAdd(F, q.c[k], FInner(F, G.mds[k], s, 1))>>]))
            ELSE IF b = a THEN Open(a) ELSE Prog(b)
    [] q.g = "rb" ->
         IF \A k \in 1..4 : kn(k)
         THEN LET s == TLCEval([k \in 1..4 |-> P5(F, v(k))]) IN
              Done(Puts(a, [k \in 1..4 |-> <<x[k], FAdd(F, q.c[k], FInner(F, G.mds[k], s, 1))>>]))
         ELSE Open(a)
    [] q.g = "add" ->
         LET l == Linear(F, a, w[4], <<<<<<2>>, w[3], rng[w[3]]>>, <<<<1>>, w[7], <<1>>>>>>) IN
         IF l.s = "bad" \/ (kn(7) /\ Lt(<<1>>, v(7))) THEN Bad
         ELSE IF ~(kn(1) /\ kn(2) /\ kn(5) /\ kn(6)) THEN (IF l.a = a THEN Open(a) ELSE Prog(l.a))
         ELSE IF v(1) = v(5) THEN Bad
         ELSE LET inv == FInv(F, FSub(F, v(1), v(5)))
                  lam == FMul(F, FSub(F, v(2), v(6)), inv)
                  b == Puts(l.a, <<<<w[8], inv>>, <<w[9], lam>>>>)
              IN IF b = <<>> THEN Bad
                 ELSE IF b[w[7]] = U THEN (IF b = a THEN Open(a) ELSE Prog(b))
                 ELSE IF Lt(<<1>>, b[w[7]]) THEN Bad
                 ELSE LET t == IF b[w[7]] = <<1>> THEN Third2(F, v(1), v(2), v(5), lam) ELSE <<v(1), v(2)>>
                          d == Puts(b, <<<<x[1], t[1]>>, <<x[2], t[2]>>>>)
                      IN IF l.s = "done" THEN Done(d)
                         ELSE IF d = <<>> THEN Bad ELSE IF d = a THEN Open(a) ELSE Prog(d)
    [] q.g = "dbl" ->
         IF ~(kn(1) /\ kn(2)) THEN Open(a)
         ELSE IF v(2) = <<>> THEN Bad
         ELSE LET inv == FInv(F, FAdd(F, v(2), v(2)))
                  lam == FMul(F, FAdd(F, FMul(F, <<3>>, FSq(F, v(1))), G.A), inv)
                  t == Third2(F, v(1), v(2), v(1), lam)
              IN Done(Puts(a, <<<<w[3], t[1]>>, <<w[4], t[2]>>, <<w[5], inv>>, <<w[6], lam>>>>))
    [] OTHER -> Open(a)

(* One pass over the rows to do, in order or backwards: what is left to do and the assignment, <<>> if
   a row cannot be satisfied. *)
Pass(C, S, todo, back, a) ==
  LET t == FoldLeft(LAMBDA m, k : IF m.a = <<>> THEN m
                                  ELSE LET f == Fire(C, S.rng, S.rows[k], m.a)
                                       IN [a |-> f.a, todo |-> IF f.s = "bad" THEN <<>> ELSE IF f.s = "done" THEN m.todo ELSE Append(m.todo, k)],
                    [a |-> a, todo |-> <<>>], IF back THEN Reverse(todo) ELSE todo)
  IN IF t.a = <<>> THEN [a |-> <<>>, todo |-> <<>>] ELSE IF back THEN [t EXCEPT !.todo = Reverse(t.todo)] ELSE t

(* Most of what a row needs is decided nearby: rows are taken up in windows, each until nothing changes,
   rows left over going into the next window. *)
RECURSIVE Local(_, _, _, _)
Local(C, S, todo, a) ==
  LET p1 == Pass(C, S, todo, FALSE, a)
      p2 == IF p1.a = <<>> \/ p1.todo = <<>> THEN p1 ELSE Pass(C, S, p1.todo, TRUE, p1.a)
  IN IF p2.a = <<>> \/ p2.todo = <<>> \/ (p2.todo = todo /\ p2.a = a) THEN p2 ELSE Local(C, S, p2.todo, p2.a)
Windows(C, S, todo, a) ==
  FoldLeft(LAMBDA m, j :
             IF m.a = <<>> THEN m
             ELSE LET n == Len(m.todo)
                      k == IF n > 24 THEN n - 24 ELSE 0
                      p == Local(C, S, SubSeq(m.todo, k + 1, n) \o SubSeq(todo, 20 * j - 19, IF 20 * j < Len(todo) THEN 20 * j ELSE Len(todo)), m.a)
                  IN IF p.a = <<>> THEN p ELSE [a |-> p.a, todo |-> SubSeq(m.todo, 1, k) \o p.todo],
           [a |-> a, todo |-> <<>>], [j \in 1..((Len(todo) + 19) \div 20) |-> j])

(* ------------------------------------------------------------------------------------- branching *)
RowClasses(q) == CASE q.g = "base4" -> q.w
                   [] q.g = "arith" -> SubSeq(q.w, 1, 4)
                   [] q.g = "pi" -> SubSeq(q.w, 7, 9) \o SubSeq(q.x, 1, 3)
                   [] q.g \in {"ra", "rb"} -> SubSeq(q.w, 1, 4) \o SubSeq(q.x, 1, 4)
                   [] q.g = "add" -> q.w \o SubSeq(q.x, 1, 2)
                   [] q.g = "dbl" -> SubSeq(q.w, 1, 6)
                   [] OTHER -> <<>>
Unknowns(q, a) == LET cs == RowClasses(q) IN {cs[k] : k \in {k \in 1..Len(cs) : a[cs[k]] = U}}
(* exact: rows with one unknown and two roots *)
TwoRoots(C, S, a, todo) == SelectSeq(todo, LAMBDA k : LET q == S.rows[k] IN q.g = "arith" /\ \E u \in ArithUnknown(q, a) : ArithUnknown(q, a) = {u})
Small(F) == Len(F.p) = 1 /\ F.p[1] <= 257
Samples(F, rng, k, d) == IF rng[k] # U /\ Lt(rng[k], <<4>>) THEN {BN!FromNat(n) : n \in 0..(IF rng[k] = <<>> THEN 0 ELSE rng[k][1])}
                         ELSE IF Small(F) /\ d = 0 THEN {BN!FromNat(n) : n \in 0..(F.p[1] - 1)}
                         ELSE IF d <= 2 THEN {<<>>, <<1>>, <<2>>, <<7>>, BN!Sub(F.p, <<1>>)}
                         ELSE IF d <= 5 THEN {<<>>, <<1>>} ELSE {}
Exact(F, rng, k, d) == (rng[k] # U /\ Lt(rng[k], <<4>>)) \/ (Small(F) /\ d = 0)

(* Rows of public inputs only equate two classes; if both are still unknown when nothing else is left,
   the circuit does not use them. *)
Others(S, todo) == SelectSeq(todo, LAMBDA k : S.rows[k].g # "pi")

(* A row of limbs nothing else depends on can be completed: any missing limbs are zero. *)
Free4(S, a, todo) == SelectSeq(todo, LAMBDA k : LET q == S.rows[k] IN
  /\ q.g = "base4"
  /\ a[q.w[1]] = U \/ a[q.w[2]] = U
  /\ \A u \in Unknowns(q, a) : S.own[u])

VARIABLES job, st, a, todo, d, exact
vars == <<job, st, a, todo, d, exact>>
C0 == Circ[Jobs[job].c]
S0 == St[Jobs[job].c]

Init == /\ job \in 1..Len(Jobs)
        /\ st = "new" /\ a = <<>> /\ todo = <<>> /\ d = 0 /\ exact = TRUE
Load == st = "new" /\ st' = "init" /\ UNCHANGED <<job, a, todo, d, exact>>
RECURSIVE Flat(_, _, _)
Flat(cls, xs, j) == IF j > Len(cls) THEN <<>> ELSE [k \in 1..Len(cls[j]) |-> <<cls[j][k], xs[j][k]>>] \o Flat(cls, xs, j + 1)
Vals(C, xs) == [k \in 1..Len(xs) |-> IF C.types[k] = "f" THEN <<xs[k]>> ELSE xs[k]]
Start == /\ st = "init"
         /\ ~Refused(C0) /\ ~("noleaf" \in DOMAIN Jobs[job])
         /\ LET J == Jobs[job]
                b == Puts(TLCEval([k \in 1..C0.m |-> U]), Flat(SubSeq(C0.vals, 1, Len(J.xs)), Vals(C0, J.xs), 1) \o J.fix)
            IN IF b = <<>> THEN st' = "dead" /\ a' = <<>> /\ todo' = <<>>
               ELSE st' = "run" /\ a' = b /\ todo' = [k \in 1..Len(S0.rows) |-> k]
         /\ UNCHANGED <<job, d, exact>>
Forced == /\ st = "run"
          /\ LET p2 == Windows(C0, S0, todo, a) IN /\ a' = p2.a
                /\ todo' = p2.todo
                /\ st' = IF p2.a = <<>> THEN "dead" ELSE IF p2.a # a \/ p2.todo # todo THEN (IF p2.todo = <<>> THEN "leaf" ELSE "run")
                         ELSE IF Others(S0, todo) = <<>> THEN "leaf" ELSE "stuck"
          /\ UNCHANGED <<job, d, exact>>
Complete == /\ st = "stuck" /\ Free4(S0, a, todo) # <<>>
            /\ LET f == Free4(S0, a, todo)
                   fill(q) == Unknowns(q, a) \ {IF a[q.w[2]] = U THEN q.w[2] ELSE q.w[1]}
                   zero == TLCEval(UNION {fill(S0.rows[f[k]]) : k \in 1..Len(f)})
               IN a' = [k \in 1..Len(a) |-> IF k \in zero THEN <<>> ELSE a[k]]
            /\ st' = "run" /\ UNCHANGED <<job, todo, d, exact>>
Branch == /\ st = "stuck" /\ Free4(S0, a, todo) = <<>>
          /\ LET two == TwoRoots(C0, S0, a, todo)
                 q == S0.rows[IF two = <<>> THEN Others(S0, todo)[1] ELSE two[1]]
                 k == IF two # <<>> THEN CHOOSE u \in ArithUnknown(q, a) : TRUE
                      ELSE CHOOSE u \in Unknowns(q, a) : \A t \in Unknowns(q, a) : S0.rng[t] # U => S0.rng[u] # U /\ ~Lt(S0.rng[t], S0.rng[u])
                 dom == IF two # <<>> THEN Roots(C0.F, TLCEval(Quad(C0.F, q, a, k))) ELSE Samples(C0.F, S0.rng, k, d)
             IN IF dom = {} THEN st' = "gaveup" /\ UNCHANGED <<a, todo, d>> /\ exact' = FALSE
                ELSE \E v \in dom : /\ a' = [a EXCEPT ![k] = v]
                                    /\ st' = "run"
                                    /\ d' = IF two = <<>> THEN d + 1 ELSE d
                                    /\ exact' = (exact /\ (two # <<>> \/ Exact(C0.F, S0.rng, k, d)))
                                    /\ UNCHANGED todo
          /\ UNCHANGED job
Next == Load \/ Start \/ Forced \/ Complete \/ Branch
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------------------------- verdicts *)
(* an assignment of all rows satisfies their constraints *)
Sat(C, S, val(_, _, _)) ==
  \A k \in 1..Len(S.rows) : LET q == S.rows[k] IN
    Holds(C.F, TLCEval(Unfiltered(C.G, q.g, C.cs[q.r], TLCEval([j \in 1..9 |-> val(q.r, 0, j)]), TLCEval([j \in 1..9 |-> val(q.r, 1, j)]), TLCEval([j \in 1..9 |-> val(q.r, 65, j)]))))
Get(k) == IF k = 0 \/ a[k] = U THEN <<>> ELSE a[k]
Real == LET C == C0 IN Sat(C, S0, LAMBDA r, o, j : Get(C.cls[Wrap(C.n, r + o)][j]))
(* value number k of the program, in the classes of its targets, is v *)
Is(C, k, v, get(_)) ==
  LET t == C.vals[k] IN
  CASE C.types[k] = "f" -> get(t[1]) = v
    [] C.types[k] \in {"pt", "ord"} -> \A j \in 1..Len(t) : get(t[j]) = v[j]
    [] C.types[k] = "int" -> LET ls == [j \in 1..Len(t) |-> get(t[j])] IN
                             (\A j \in 1..Len(t) : ls[j] # U /\ Lt(ls[j], Limb)) /\ Join(ls) = v
Right(C, R, get(_)) ==
  /\ R.st # "no"
  /\ R.st = "any" \/ \A k \in 1..Len(C.vals) : Is(C, k, R.vals[k], get)
LeafOk == LET R == TLCEval(Run(C0, Jobs[job].xs)) IN R.st = "any" \/ Right(C0, R, LAMBDA k : a[k]) \/ ~Real

(* the table generated by the code: hv, or the reason why there is none *)
HonestOk ==
  LET J == Jobs[job]  C == C0
      R == TLCEval(Run(C, J.xs))
      at(r, j) == J.hv[r][j]
      first == TLCEval([k \in 1..C.m |-> <<>>])
      copies == \A r \in 1..C.n : \A j \in 1..9 :
                  C.cls[r][j] = 0 \/ (LET t == C.first[C.cls[r][j]] IN at(r, j) = at(t[1], t[2]))
      sat == Sat(C, S0, LAMBDA r, o, j : J.hv[Wrap(C.n, r + o)][j]) /\ copies
      get(k) == IF C.first[k][1] = 0 THEN (IF J.hx[k] = <<-2>> THEN U ELSE J.hx[k]) ELSE at(C.first[k][1], C.first[k][2])
      ok == J.ok /\ sat
      right == Right(C, R, get)
      given == \A k \in 1..Len(J.xs) : LET v == IF C.types[k] = "f" THEN <<J.xs[k]>> ELSE J.xs[k] IN
                 \A j \in 1..Len(v) : get(C.vals[k][j]) = v[j]
  IN ~J.honest \/ (CASE R.st = "yes" -> ok /\ right
                     [] R.st = "no" -> ~(ok /\ given)
                     [] R.st = "may" -> ok /\ given => right
                     [] R.st = "any" -> TRUE)
Report(ok, why) == ok \/ (PrintT(<<"BAD", job>>) /\ PrintT(<<"WHY", job, why>>))
Conform == /\ st = "init" => Report(IF Refused(C0) THEN FALSE ELSE HonestOk, "generated")
           /\ st = "leaf" => Report(LeafOk, "leaf")
           /\ st = "leaf" => PrintT(<<"LEAF", job>>)
           /\ st = "init" => Refused(C0) \/ Run(C0, Jobs[job].xs).st # "yes" \/ Jobs[job].fix # <<>> \/ "noleaf" \in DOMAIN Jobs[job] \/ PrintT(<<"YES", job>>)
           /\ ~exact /\ st \in {"leaf", "dead", "gaveup"} => PrintT(<<"SAMPLED", job>>)
=============================================================================
