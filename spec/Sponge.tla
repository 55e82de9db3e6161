------------------------------- MODULE Sponge -------------------------------
(* The sponge constructions over any permutation of states of Rate + 1 elements: the hash functions, and
   the challenger, a duplex sponge.  R holds the parameters of the permutation and is passed on to it.
   SpongeModel checks these definitions with a free permutation, Rescue uses them with its own. *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS PermOp(_, _),     \* the permutation of a state
          AddOp(_, _, _),   \* adding an observed element to an element of the state
          ZeroOp(_)         \* the initial state

Rate == 3
(* Absorb xs[i..] in chunks, permuting after each. *)
RECURSIVE AbsorbFrom(_, _, _, _)
AbsorbFrom(R, s, xs, i) ==
  IF i > Len(xs) THEN s
  ELSE AbsorbFrom(R, PermOp(R, TLCEval([j \in 1..Len(s) |-> IF j <= Rate /\ i + j - 1 <= Len(xs) THEN AddOp(R, s[j], xs[i + j - 1]) ELSE s[j]])),
                  xs, i + Rate)
RECURSIVE Squeeze(_, _, _)
Squeeze(R, s, n) == IF n <= Rate THEN SubSeq(s, 1, n) ELSE SubSeq(s, 1, Rate) \o Squeeze(R, PermOp(R, s), n - Rate)
SpongeHash(R, xs, n) == Squeeze(R, AbsorbFrom(R, ZeroOp(R), xs, 1), n)

(* The challenger.  Its state has the sponge state, what was observed and not yet absorbed, and what was
   squeezed and not yet handed out.  Challenges are taken from the end of the output buffer. *)
Ch0(R) == [s |-> ZeroOp(R), i |-> <<>>, o |-> <<>>]
Observe(R, ch, xs) == IF xs = <<>> THEN ch ELSE [ch EXCEPT !.i = @ \o xs, !.o = <<>>]
Absorb(R, ch) == IF ch.i = <<>> THEN ch
                 ELSE LET s == AbsorbFrom(R, ch.s, ch.i, 1) IN [s |-> s, i |-> <<>>, o |-> SubSeq(s, 1, Rate)]
Refill(R, ch) == IF ch.o # <<>> THEN ch
                 ELSE LET s == PermOp(R, ch.s) IN [s |-> s, i |-> <<>>, o |-> SubSeq(s, 1, Rate)]
(* <<challenge, next state>> *)
Challenge(R, ch) == LET n == Refill(R, Absorb(R, ch)) k == Len(n.o)
                    IN <<n.o[k], [n EXCEPT !.o = SubSeq(n.o, 1, k - 1)]>>
RECURSIVE Challenges(_, _, _)
Challenges(R, ch, n) == IF n = 0 THEN <<<<>>, ch>>
                        ELSE LET a == Challenge(R, ch) b == Challenges(R, a[2], n - 1)
                             IN <<<<a[1]>> \o b[1], b[2]>>
(* A history: a sequence of <<0, x>> (observe x) and <<1>> (request a challenge); the challenges it gives. *)
RECURSIVE HistFrom(_, _, _, _)
HistFrom(R, ch, h, i) ==
  IF i > Len(h) THEN <<>>
  ELSE IF h[i][1] = 0 THEN HistFrom(R, Observe(R, ch, <<h[i][2]>>), h, i + 1)
  ELSE LET a == Challenge(R, ch) IN <<a[1]>> \o HistFrom(R, a[2], h, i + 1)
History(R, h) == HistFrom(R, Ch0(R), h, 1)
=============================================================================
