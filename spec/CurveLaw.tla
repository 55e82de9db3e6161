------------------------------ MODULE CurveLaw ------------------------------
(* The addition of Curve.tla is an abelian group law on small curves, checked for all triples of
   points; curve E3 has points of order two and three.  The definitions used are those of CurvePure, whose
   text is Curve's: the Java overrides of Curve are checked to agree with them, on these curves and on
   points of a curve whose elements are digit sequences. *)
EXTENDS CurvePure, FiniteSets
CONSTANT CurveIds
O == INSTANCE Curve
Small(p) == [big |-> FALSE, p |-> p]
CurveOf(k) == CASE k = 1 -> [F |-> Small(13), A |-> 0, B |-> 7, S |-> Small(7)]
                [] k = 2 -> [F |-> Small(11), A |-> 1, B |-> 6, S |-> Small(13)]
                [] k = 3 -> [F |-> Small(19), A |-> 0, B |-> 1, S |-> Small(13)]
                [] k = 4 -> [F |-> Small(17), A |-> 2, B |-> 0, S |-> Small(13)]
                [] k = 5 -> [F |-> [big |-> TRUE, p |-> <<4093, 4095>>], A |-> <<1>>, B |-> <<4092, 4095>>, S |-> [big |-> TRUE, p |-> <<77>>]]
Points(E) == IF E.F.big THEN {CMulBits(E, NatBits(n), 1, <<<<1>>, <<1>>>>) : n \in 0..6} \cup {<<<<1>>, <<4092, 4095>>>>}
             ELSE {<<>>} \cup {P \in (0..(E.F.p - 1)) \X (0..(E.F.p - 1)) : OnCurve(E, P)}

VARIABLES k, P, Q
Init == k \in CurveIds /\ P = <<0, 0, 0>> /\ Q = <<>>
Next == /\ P = <<0, 0, 0>>
        /\ P' \in Points(CurveOf(k)) /\ Q' \in Points(CurveOf(k)) /\ k' = k
Spec == Init /\ [][Next]_<<k, P, Q>>

Law == LET E == CurveOf(k) pts == Points(E) IN
  P # <<0, 0, 0>> =>
    /\ IsPoint(E, CAdd(E, P, Q))
    /\ O!CAdd(E, P, Q) = CAdd(E, P, Q)
    /\ O!CDbl(E, P) = CDbl(E, P)
    /\ O!CSumFrom(E, <<P, Q, P, Q, Q>>, 2) = CSumFrom(E, <<P, Q, P, Q, Q>>, 2)
    /\ LET s(n) == FNat(E.S, n) IN
       /\ \A n \in 0..5 : O!CMulG(E, E.S, s(n), P) = CMulG(E, E.S, s(n), P)
       /\ O!CMsmFrom(E, <<s(5), s(6), s(3)>>, <<P, Q, P>>, 1) = CMsmFrom(E, <<s(5), s(6), s(3)>>, <<P, Q, P>>, 1)
    /\ CAdd(E, P, Q) = CAdd(E, Q, P)
    /\ CAdd(E, P, <<>>) = P
    /\ CAdd(E, P, CNeg(E, P)) = <<>>
    /\ (CAdd(E, P, Q) = <<>>) => Q = CNeg(E, P)
    /\ \A R \in pts : CAdd(E, CAdd(E, P, Q), R) = CAdd(E, P, CAdd(E, Q, R))
    /\ (P = Q /\ ~E.F.big) =>
                /\ CDbl(E, P) = CAdd(E, P, P)
                /\ CMulG(E, E.F, Cardinality(pts), P) = <<>>
                /\ \A n \in 0..6 : CMulG(E, E.F, n + 1, P) = CAdd(E, P, CMulG(E, E.F, n, P))
=============================================================================
