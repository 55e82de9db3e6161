---------------------------- MODULE WitnessModel ----------------------------
(* Witness generation by a work list, over every small circuit and schedule: the pending generators of a
   round run in any order; afterwards the copies carry new values over, and the generators that depend on a
   target which got a value this round, and have not run, become pending once all they depend on is known.
   A target may get its value more than once (inputs that are computed too, several generators for a class);
   all sources of a class agree, so that its value is named by the class.
   Checked against the fixpoint: the generators computable from the inputs, in any order, run exactly once,
   with everything they depend on known, and the classes computable from the inputs get their values. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, Items
Targets == 1..T

VARIABLES
  lab,      \* class of each target, named by its least member
  gens,     \* sequence of [d |-> dependencies, o |-> output]
  ins,      \* the inputs
  val,      \* target to 0 (unknown) or the value
  pend, new, runs
vars == <<lab, gens, ins, val, pend, new, runs>>
circuit == <<lab, gens, ins>>

Gens == [d : {s \in SUBSET Targets : Cardinality(s) <= 2}, o : Targets]
Partition(l) == \A t \in Targets : l[t] <= t /\ l[l[t]] = l[t]
Class(t) == {u \in Targets : lab[u] = lab[t]}
Known == {t \in Targets : val[t] # 0}
InitPend(g, v) == {k \in DOMAIN g : \A d \in g[k].d : v[d] # 0}

Code(g) == g.o + (T + 1) * (CHOOSE n \in 0..(2 ^ T - 1) : \A t \in Targets : (t \in g.d) = ((n \div 2 ^ (t - 1)) % 2 = 1))
Init ==
  /\ lab \in {l \in [Targets -> Targets] : Partition(l)}
  /\ gens \in {s \in [1..Items -> Gens] : \A j \in 1..(Items - 1) : Code(s[j]) <= Code(s[j + 1])}
  /\ ins \in SUBSET Targets
  \* the copies carry the inputs over first
  /\ val = [t \in Targets |-> IF \E u \in ins : lab[u] = lab[t] THEN lab[t] ELSE 0]
  /\ pend = InitPend(gens, val)
  /\ new = {}
  /\ runs = <<>>

Run(k) ==
  /\ k \in pend
  /\ pend' = pend \ {k}
  /\ val' = [val EXCEPT ![gens[k].o] = lab[gens[k].o]]
  /\ new' = new \cup {gens[k].o}
  /\ runs' = Append(runs, k)
  /\ UNCHANGED circuit
\* end of a round
Refresh ==
  /\ pend = {} /\ new # {}
  /\ LET all == UNION {Class(t) : t \in new}
         v == [t \in Targets |-> IF t \in all THEN val[CHOOSE u \in new : lab[u] = lab[t]] ELSE val[t]] IN
     /\ val' = v
     /\ pend' = {k \in DOMAIN gens : /\ gens[k].d \cap all # {}
                                     /\ \A j \in DOMAIN runs : runs[j] # k
                                     /\ \A d \in gens[k].d : v[d] # 0}
  /\ new' = {}
  /\ UNCHANGED <<circuit, runs>>
Next == Refresh \/ \E k \in DOMAIN gens : Run(k)
Spec == Init /\ [][Next]_vars

RECURSIVE Fix(_)
Fix(known) == LET more == known \cup UNION {Class(gens[k].o) : k \in {j \in DOMAIN gens : gens[j].d \subseteq known}}
              IN IF more = known THEN known ELSE Fix(more)
Inputs == {t \in Targets : \E u \in ins : lab[u] = lab[t]}
Once == \A j, k \in DOMAIN runs : j # k => runs[j] # runs[k]
Ready == \A k \in pend : gens[k].d \subseteq Known
\* one value per class; all members have it, apart from the classes of the outputs of the round under way
Consistent == \A t, u \in Targets : lab[t] = lab[u] /\ Class(t) \cap new = {} => val[t] = val[u]
Complete == pend = {} /\ new = {} =>
  LET f == Fix(Inputs) IN
  /\ Known = f
  /\ {runs[j] : j \in DOMAIN runs} = {k \in DOMAIN gens : gens[k].d \subseteq f}
  /\ \A t \in f : val[t] = lab[t]
Inv == Once /\ Ready /\ Consistent /\ Complete
=============================================================================
