------------------------------ MODULE ChainModel ------------------------------
(* Carrying accumulators.  A prover, honest or not, makes a chain of up to Max proofs; each carries a list of
   accumulators handed out by earlier deferred verifications, or made up.  An accumulator is identified by
   its point and its challenges; it is true iff the point is the commitment to the polynomial its challenges
   determine.  A proof's own combined opening is of everything it commits to, its carried points included.

   The opening argument binds: with an honest final point it passes only if every opened value is right
   (for carried points: the value the challenges determine, which only a true accumulator has); with a final
   point solved for it always passes, but the final point is then not the commitment it should be.

   Sound: if the last proof of a chain passes the full verification then every statement in its ancestry is
   true and every accumulator that was carried on the way is. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Max, Carry

VARIABLES proofs, decided
vars == <<proofs, decided>>

(* An accumulator: the proof it came from (0: made up) and whether it is as handed out ("kept"), has its
   challenges or its point altered. *)
Accs == {[from |-> k, how |-> h] : k \in 0..Len(proofs), h \in {"kept", "altered"}}
True(a) == a.from # 0 /\ a.how = "kept" /\ proofs[a.from].gOk

(* valid: its statement; list: carried; forge: the final point is solved for. *)
Prove(valid, list, forge) ==
  LET opened == valid /\ \A j \in 1..Len(list) : True(list[j])
      passes == opened \/ forge                 \* the deferred verification
      gOk == opened /\ ~forge                   \* the final point is the commitment of its challenges
  IN /\ passes
     /\ proofs' = Append(proofs, [valid |-> valid, list |-> list, gOk |-> gOk])

Lists == UNION {[1..m -> Accs] : m \in 0..Carry}
Step == /\ Len(proofs) < Max /\ decided = 0
        /\ \E v \in BOOLEAN, l \in Lists, f \in BOOLEAN : Prove(v, l, f)
        /\ UNCHANGED decided
(* The full verification of a proof checks its final point as well. *)
Decide == /\ decided = 0
          /\ \E k \in 1..Len(proofs) : proofs[k].gOk /\ decided' = k
          /\ UNCHANGED proofs
Init == proofs = <<>> /\ decided = 0
Next == Step \/ Decide
Spec == Init /\ [][Next]_vars

RECURSIVE Anc(_)
Anc(k) == {k} \cup UNION {Anc(proofs[k].list[j].from) : j \in {m \in 1..Len(proofs[k].list) : proofs[k].list[m].from # 0}}
Sound == decided # 0 =>
  \A k \in Anc(decided) : proofs[k].valid /\ proofs[k].gOk /\ \A j \in 1..Len(proofs[k].list) : True(proofs[k].list[j])
=============================================================================
