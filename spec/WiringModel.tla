---------------------------- MODULE WiringModel ----------------------------
(* The partitions a builder keeps while copies are requested, and the permutation made of them, against
   the closure of the requested copies.  Partitions are sequences whose members are appended when two are
   merged; merging leaves the members' old partition behind, referred to by nobody.  A neighbour is the
   next routed member, cyclically.  Also the law the permutation argument rests on. *)
EXTENDS Wiring, Fp
CONSTANTS Routed, Virtual, MaxCopies
Targets == 1..(Routed + Virtual)

VARIABLES parts, index, copies
vars == <<parts, index, copies>>
Init == /\ parts = [t \in Targets |-> <<t>>]
        /\ index = [t \in Targets |-> t]
        /\ copies = <<>>
Copy(a, b) ==
  /\ Len(copies) < MaxCopies
  /\ copies' = Append(copies, <<a, b>>)
  /\ LET x == index[a] y == index[b] IN
     IF x = y THEN UNCHANGED <<parts, index>>
     ELSE /\ parts' = [parts EXCEPT ![y] = parts[y] \o parts[x]]
          /\ index' = [t \in Targets |-> IF \E k \in 1..Len(parts[x]) : parts[x][k] = t THEN y ELSE index[t]]
Next == \E a \in Targets, b \in Targets : Copy(a, b)
Spec == Init /\ [][Next]_vars

RoutedOf(s) == SelectSeq(s, LAMBDA t : t <= Routed)
Neighbour(t) == LET s == RoutedOf(parts[index[t]])
                    k == CHOOSE j \in 1..Len(s) : s[j] = t IN s[(k % Len(s)) + 1]
Sigma == [t \in 1..Routed |-> Neighbour(t)]
Lab == Classes(Routed + Virtual, copies)
SigmaView == <<parts, index, Len(copies)>>

(* Each target is once in its own partition. *)
Member == \A t \in Targets : Cardinality({k \in 1..Len(parts[index[t]]) : parts[index[t]][k] = t}) = 1
Exact == /\ \A a \in Targets, b \in Targets : (index[a] = index[b]) = (Lab[a] = Lab[b])
         /\ WiringOf(Lab, Sigma)
(* The labelling is the closure, by its definition: reachability along copies. *)
RECURSIVE Reach(_)
Reach(s) == LET n == s \cup {t \in Targets : \E k \in 1..Len(copies) :
                                   \/ copies[k][1] \in s /\ copies[k][2] = t
                                   \/ copies[k][2] \in s /\ copies[k][1] = t} IN IF n = s THEN s ELSE Reach(n)
Closure == \A a \in Targets : Reach({a}) = {b \in Targets : Lab[a] = Lab[b]}

(* The product of (v + beta id + gamma) / (v + beta sigma(id) + gamma) over all positions is one, for all
   beta and gamma without vanishing factors, exactly for values constant on the cycles. *)
P == [big |-> FALSE, p |-> 11]
Ids == [j \in 1..Routed |-> j]
RECURSIVE Prod(_, _, _)
Prod(f, g, j) == IF j = 0 THEN 1 ELSE FMul(P, f[j], Prod(f, g, j - 1))
Num(v, be, ga) == [j \in 1..Routed |-> (v[j] + be * Ids[j] + ga) % 11]
Den(v, s, be, ga) == [j \in 1..Routed |-> (v[j] + be * Ids[s[j]] + ga) % 11]
Argument == LET s == TLCEval(Sigma) lab == TLCEval(Lab) IN
  \A v \in [1..Routed -> 0..2] :
  (\A j \in 1..Routed : v[s[j]] = v[j])
    = (\A be \in 0..10, ga \in 0..10 :
         LET d == TLCEval(Den(v, s, be, ga)) n == TLCEval(Num(v, be, ga)) IN Prod(n, n, Routed) = Prod(d, d, Routed))
=============================================================================
