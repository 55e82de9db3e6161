----------------------------- MODULE CodecTrace -----------------------------
(* Encodings and decodings of the implementation. *)
EXTENDS TraceBase, Codec
Hdr == ndJsonDeserialize(IOEnv.HDR)
CheckRec(r) == LET C == Hdr[r.c] IN
  /\ r.ok
  /\ CASE r.op = "enc" -> r.r = EncAll(C, r.items, 1)
       [] r.op = "dec" -> /\ r.r = <<>> \/ r.used = Size(C, r.t)
                          /\ DecOk(C, r.t, r.b, r.r)
       [] r.op = "stream" -> ReadsOk(C, r.ts, r.b, r.r, r.at, 1)
       \* self-describing encodings: of the same value, equal again; a truncated one is refused (trunc: the
       \* cuts which were not); an altered one is refused or has only valid contents
       [] r.op = "serde" -> r.r = r.v /\ r.eq
       [] r.op = "cuts" -> r.r = <<>>
       [] r.op = "altered" -> \A k \in 1..Len(r.r) : LET it == r.r[k] IN
                                IF it[1] = "f" THEN InF(C.E.F, it[2]) ELSE IF it[1] = "s" THEN InF(C.E.S, it[2])
                                ELSE IsPoint(C.E, it[2])
       [] OTHER -> FALSE
Conform == i = 0 \/ Report(CheckRec(Rec))
=============================================================================
