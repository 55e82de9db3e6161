------------------------------ MODULE TraceBase ------------------------------
(* Validation of a trace of independent observations recorded from the real
   code (one JSON object per line): K workers' worth of behaviours, each walking
   a stride of the trace.  A trace specification extends this module with
   Conform == Report(CheckRec(Rec)). *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
K == IF N < 64 THEN N ELSE 64

VARIABLES c, i
tvars == <<c, i>>

Idx == c + (i - 1) * K
Rec == Recs[Idx]

TInit == c \in 1..K /\ i = 0
TNext == c + i * K <= N /\ i' = i + 1 /\ c' = c
TSpec == TInit /\ [][TNext]_tvars

Report(ok) == ok \/ PrintT(<<"BAD", Idx>>)
=============================================================================
