----------------------------- MODULE CodecModel -----------------------------
(* A writer appends encoded items to a stream; the stream may be cut at any place or have one byte
   altered; a reader which knows the types reads it back.  Over tiny curves, everything is enumerated. *)
EXTENDS Codec, FiniteSets
CONSTANTS MaxItems, AnyByte
Curves == {[F |-> [big |-> FALSE, p |-> 7], S |-> [big |-> FALSE, p |-> 5], A |-> 0, B |-> 1],     \* has points of order two
           [F |-> [big |-> FALSE, p |-> 13], S |-> [big |-> FALSE, p |-> 7], A |-> 2, B |-> 3]}
CodecOf(E) == [E |-> E, base |-> 4, n |-> 2, m |-> 2]
Points(E) == {<<>>} \cup {P \in (0..(E.F.p - 1)) \X (0..(E.F.p - 1)) : OnCurve(E, P)}
Items(E) == {<<"f", x>> : x \in 0..(E.F.p - 1)} \cup {<<"s", x>> : x \in 0..(E.S.p - 1)} \cup {<<"p", P>> : P \in Points(E)}

VARIABLES E, items, bytes, fault, pos, got
vars == <<E, items, bytes, fault, pos, got>>
C == CodecOf(E)
Init == E \in Curves /\ items = <<>> /\ bytes = <<>> /\ fault = "none" /\ pos = 0 /\ got = <<>>
Write == /\ fault = "none" /\ got = <<>> /\ Len(items) < MaxItems
         /\ \E it \in Items(E) : items' = Append(items, it) /\ bytes' = bytes \o EncItem(C, it)
         /\ UNCHANGED <<E, fault, pos, got>>
Cut == /\ fault = "none" /\ got = <<>> /\ bytes # <<>>
       /\ \E k \in 0..(Len(bytes) - 1) : bytes' = SubSeq(bytes, 1, k)
       /\ fault' = "cut" /\ UNCHANGED <<E, items, pos, got>>
Alter == /\ fault = "none" /\ got = <<>> /\ AnyByte /\ Len(items) = 1
         /\ \E k \in 1..Len(bytes), v \in 0..3 : bytes[k] # v /\ bytes' = [bytes EXCEPT ![k] = v]
         /\ fault' = "altered" /\ UNCHANGED <<E, items, pos, got>>
Failed == got # <<>> /\ got[Len(got)] = <<>>
(* The reader's possible results are those which DecOk admits. *)
Results(t) == {<<>>} \cup {<<it[2]>> : it \in {x \in Items(E) : x[1] = t}}
Read == /\ Len(got) < Len(items) /\ ~Failed
        /\ LET t == items[Len(got) + 1][1] rest == SubSeq(bytes, pos + 1, Len(bytes)) IN
           /\ \E r \in Results(t) : DecOk(C, t, rest, r) /\ got' = Append(got, r)
                                    /\ pos' = IF r = <<>> THEN pos ELSE pos + Size(C, t)
        /\ UNCHANGED <<E, items, bytes, fault>>
Next == Write \/ Cut \/ Alter \/ Read
Spec == Init /\ [][Next]_vars

(* What was written is read, in order, up to the place of a fault. *)
Faithful == \A k \in 1..Len(got) : (got[k] # <<>> /\ fault # "altered") => got[k][1] = items[k][2]
Complete == (fault = "none" /\ Len(got) = Len(items)) => /\ \A k \in 1..Len(got) : got[k] # <<>>
                                                         /\ pos = Len(bytes)
(* A cut is noticed, never later than the item it falls into. *)
Noticed == fault = "cut" => (Len(got) = Len(items) => Failed)
(* Reading is never stuck: some result is always admitted; without the leniency for first bytes, exactly one. *)
Total == (Len(got) < Len(items) /\ ~Failed) =>
  LET t == items[Len(got) + 1][1] rest == SubSeq(bytes, pos + 1, Len(bytes))
      n == Cardinality({r \in Results(t) : DecOk(C, t, rest, r)}) IN n >= 1 /\ (fault # "altered" => n = 1)
(* Whatever is read is an element or a point, and encodes to what was read if that was an encoding. *)
Valid == \A k \in 1..Len(got) : got[k] # <<>> => <<items[k][1], got[k][1]>> \in Items(E)
=============================================================================
