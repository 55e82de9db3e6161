------------------------------ MODULE GateModel ------------------------------
(* Exhaustively over tiny fields: a gate's polynomials vanish exactly on the instances of its operation;
   the selection values of one gate switch off all others, whatever the other constants; a row selected for
   one gate satisfies the combination of all constraints exactly when it is an instance of that gate.
   State: a gate, a field, and the values of a changing part of the wires; the rest is chosen in Init. *)
EXTENDS GateSem, Integers, FiniteSets, TLC
CONSTANT Deep
Fs == IF Deep THEN {3, 5, 7} ELSE {3, 5}
Fld(p) == [big |-> FALSE, p |-> p]
Sq(p) == [i \in 1..4 |-> [j \in 1..4 |-> (i * i + 2 * j + i * j) % p]]
GOf(p) == [F |-> Fld(p), mds |-> Sq(p), A |-> 1 % p, zeta |-> 2]
(* For every gate, the wires it reads and writes: <<part, index>>, and the number of constants. *)
Reads(g) == CASE g = "buf" -> {<<"w", 1>>}
              [] g = "const" -> {<<"w", 1>>, <<"w", 2>>}
              [] g = "arith" -> {<<"w", j>> : j \in 1..4}
              [] g = "pi" -> {<<"w", 7>>, <<"r", 1>>, <<"w", 9>>, <<"r", 3>>, <<"r", 4>>}
              [] g = "base4" -> {<<"w", 1>>, <<"w", 2>>, <<"w", 3>>, <<"w", 6>>, <<"w", 9>>}
              [] g = "ra" -> {<<"w", 1>>, <<"w", 4>>, <<"w", 5>>, <<"w", 8>>, <<"r", 1>>, <<"r", 4>>}
              [] g = "rb" -> {<<"w", 1>>, <<"w", 4>>, <<"r", 1>>, <<"r", 2>>, <<"r", 4>>}
              [] g = "add" -> {<<"w", j>> : j \in {1, 2, 5, 6, 7, 8, 9}} \cup {<<"r", 1>>, <<"r", 2>>}
              [] g = "dbl" -> {<<"w", j>> : j \in 1..6}
              [] g = "endo" -> {<<"w", j>> : j \in {1, 2, 5, 6, 7, 8, 9}} \cup {<<"r", 1>>, <<"r", 2>>}
VARIABLES p, g, f
(* the inputs of the curve gates are restricted to keep the number of states down; outputs are free *)
Dom(q, gg, x) == IF gg \in {"add", "endo"} /\ x = <<"w", 1>> THEN {1}
                 ELSE IF gg \in {"add", "endo"} /\ q > 3 /\ x \in {<<"w", 2>>, <<"w", 6>>} THEN {0, 2}
                 ELSE IF gg \in {"add", "endo"} /\ q > 3 /\ x = <<"w", 7>> THEN {0, 1, 2}
                 ELSE IF gg \in {"add", "endo"} /\ q > 3 /\ x = <<"w", 8>> /\ gg = "endo" THEN {0, 1, 3}
                 ELSE 0..(q - 1)
RECURSIVE Fns(_, _, _)
Fns(q, gg, S) == IF S = {} THEN {<<>>}
                 ELSE LET x == CHOOSE x \in S : TRUE IN {(x :> v) @@ h : v \in Dom(q, gg, x), h \in Fns(q, gg, S \ {x})}
Init == p \in Fs /\ g \in GateNames /\ f = <<>> /\ (Deep \/ p = 3 \/ g \notin {"add", "endo"})
Next == f = <<>> /\ f' \in Fns(p, g, Reads(g)) /\ UNCHANGED <<p, g>>
Spec == Init /\ [][Next]_<<p, g, f>>

Val(part, j) == IF <<part, j>> \in DOMAIN f THEN f[<<part, j>>] ELSE 0
Row(part) == [j \in 1..9 |-> Val(part, j)]
(* the wires outside the changing part: those which make the operation's unrelated equations hold are derived *)
F == Fld(p)
WRow == TLCEval([j \in 1..9 |->
  IF <<"w", j>> \in DOMAIN f THEN f[<<"w", j>>]
  ELSE IF g = "add" /\ j = 3 THEN 1 ELSE IF g = "add" /\ j = 4 THEN (2 + Val("w", 7)) % p
  ELSE IF g = "endo" /\ j = 3 THEN 1 ELSE IF g = "endo" /\ j = 4 THEN 2
  ELSE 0])
BRow == TLCEval([j \in 1..9 |-> IF g # "endo" THEN 0
  ELSE IF j = 3 THEN (4 + 2 * Val("w", 8) + Val("w", 7)) % p
  ELSE IF j = 4 THEN (4 + (2 * Val("w", 7) + p - 1) * (1 + Val("w", 8))) % p ELSE 0])
Pad(s) == [j \in 1..6 |-> IF j <= Len(s) THEN s[j] ELSE 0]
Cfgs(gg) == LET k == 6 - Len(Prefix(gg)) IN {[j \in 1..k |-> (j + d) % p] : d \in 0..1}
Consts(gg, cfg) == Prefix(gg) \o cfg
(* the outputs to the right of the Rescue gates which do not vary are given the right values *)
RRow(c) == TLCEval([j \in 1..9 |->
  IF <<"r", j>> \in DOMAIN f THEN f[<<"r", j>>]
  ELSE IF g \in {"ra", "rb"} /\ j <= 4
       THEN LET v == IF g = "ra" THEN SubSeq(WRow, 5, 8) ELSE [i \in 1..4 |-> P5(F, WRow[i])]
            IN FAdd(F, c[2 + j], FInner(F, Sq(p)[j], v, 1))
  ELSE 0])

(* Vanishing exactly on the instances. *)
Exact == f # <<>> => \A cfg \in Cfgs(g) : LET c == Consts(g, cfg) w == WRow r == RRow(c) b == BRow IN
           Holds(F, Unfiltered(GOf(p), g, c, w, r, b)) = Sem(GOf(p), g, c, w, r, b)
(* The combination of all gates on a row selecting one gate is that gate. *)
Combined == f # <<>> /\ (p = 3 \/ g \notin {"add", "endo"}) => LET cfg == CHOOSE x \in Cfgs(g) : TRUE c == Consts(g, cfg) w == WRow r == RRow(c) b == BRow IN
           Holds(F, AllConstraints(GOf(p), c, w, r, b)) = Sem(GOf(p), g, c, w, r, b)
(* Selection is exclusive, whatever the constants of the gate are. *)
Exclusive == f = <<>> => \A h \in GateNames :
               \A cfg \in [1..(6 - Len(Prefix(g))) -> 0..(p - 1)] : (Filter(F, h, Prefix(g) \o cfg) # 0) = (g = h)
=============================================================================
