----------------------------- MODULE CodecTrace -----------------------------
(***************************************************************************)
(* Validates recorded calls of the real compressors and decompressors      *)
(* against the format.  Every record holds one input and all the calls made*)
(* with it; the model decodes the stream concerned one operation at a time *)
(* (one TLC step each) and compares what it produces with what the         *)
(* implementations produced; when it is done, the results of the calls are *)
(* judged.                                                                 *)
(*                                                                         *)
(* Records                                                                 *)
(*   t = "D": `in` is a stream, `calls` decompressed it, `outs` the        *)
(*            distinct results                                             *)
(*   t = "C": `in` is data, `calls` compressed it, `outs` the distinct     *)
(*            streams, `dec` decompressed them again, with the distinct    *)
(*            results `decouts` (the first of which is `in` itself)        *)
(* Calls [impl, cap, ret, olen, idx, fault, ia, oa, amp]: capacity given,  *)
(*   value returned, size reported, index of the result (0: none), fault   *)
(*   observed by the driver (0: none), alignment of the buffers, and the   *)
(*   index of the result of the same call with ample capacity.             *)
(***************************************************************************)
EXTENDS Format842, Integers, Json, IOUtils, FiniteSets

CONSTANT RecFile
Recs == ndJsonDeserialize(RecFile)

SW == 1
OPTSW == 2
CL == 3
ENOSPC == -28

VARIABLES rec,   \* the record
          sid,   \* for "C" records: which stream, 0 if there is none
          d,     \* decoder state
          m,     \* which of the results match what has been decoded so far
          cost   \* accounting of the encoder's choices (C17)
vars == <<rec, sid, d, m, cost>>

R == Recs[rec]
S == IF R.t = "D" THEN R.in ELSE R.outs[sid]
(* the results that the decoded bytes are compared to *)
Cand == IF R.t = "D" THEN R.outs ELSE <<R.in>>

-----------------------------------------------------------------------------
(* Accounting of the choices of an encoder: the rings as the encoder has to*)
(* see them, maintained block by block.                                    *)
None == -1
Hw(b, i) == b[i] * 256 + b[i + 1]
CostInit == [r2 |-> [i \in 0..255 |-> None], r4 |-> [i \in 0..511 |-> <<None, None>>],
             r8 |-> [i \in 0..255 |-> <<None>>],
             nblk |-> 0, last |-> <<>>, ok |-> TRUE, rep |-> 0, refs |-> 0, data |-> 0, why |-> ""]
Insert(c, b) ==
  LET n == c.nblk IN
  [c EXCEPT !.r2 = [@ EXCEPT ![(4*n) % 256] = Hw(b,1), ![(4*n+1) % 256] = Hw(b,3),
                             ![(4*n+2) % 256] = Hw(b,5), ![(4*n+3) % 256] = Hw(b,7)],
            !.r4 = [@ EXCEPT ![(2*n) % 512] = <<Hw(b,1), Hw(b,3)>>,
                             ![(2*n+1) % 512] = <<Hw(b,5), Hw(b,7)>>],
            !.r8 = [@ EXCEPT ![n % 256] = b],
            !.nblk = n + 1, !.last = b]
RECURSIVE InsertN(_, _, _)
InsertN(c, b, k) == IF k = 0 THEN c ELSE InsertN(Insert(c, b), b, k - 1)

(* the cheapest template for block b given the rings *)
MinCost(c, b) ==
  LET e2 == [k \in 0..3 |-> \E i \in 0..255 : c.r2[i] = Hw(b, 2*k+1)]
      e4 == [k \in 0..1 |-> \E i \in 0..511 : c.r4[i] = <<Hw(b, 4*k+1), Hw(b, 4*k+3)>>]
      e8 == \E i \in 0..255 : c.r8[i] = b
      RECURSIVE Has(_, _, _)
      Has(t, i, off) == IF i > Len(t) THEN TRUE
                        ELSE (t[i][1] = "I" =>
                                CASE t[i][2] = 2 -> e2[off \div 2]
                                  [] t[i][2] = 4 -> e4[off \div 4]
                                  [] t[i][2] = 8 -> e8)
                             /\ Has(t, i + 1, off + t[i][2])
      Costs == {TemplateBits(t) : t \in {u \in 1..NumTemplates : Has(Template[u], 1, 0)}}
  IN CHOOSE x \in Costs : \A y \in Costs : x <= y

Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
Fail(c, w) == [c EXCEPT !.ok = FALSE, !.why = IF c.ok THEN w ELSE @]
(* account for the operation that produced d2 *)
Account(c, d2, sw) ==
  IF d2.st # "run" \/ d2.emit = <<>> \/ d2.op = OpShort THEN c
  ELSE IF d2.op = OpRepeat THEN
    LET k  == Len(d2.emit) \div 8
        b  == SubSeq(d2.emit, 1, 8)
        \* a repeat may follow a repeat only if that one was full
        c1 == IF c.rep # 0 /\ c.rep # 64 THEN Fail(c, "two repeats in a row") ELSE c
    IN [InsertN(c1, b, k) EXCEPT !.rep = k, !.refs = @ + k]
  ELSE
    LET b  == d2.emit
        c1 == IF b = c.last /\ c.rep # 64 THEN Fail(c, "repeated block not encoded as repeat") ELSE c
        c2 == IF b = Zero8 /\ d2.op # OpZeros THEN Fail(c1, "zero block not encoded as zeros") ELSE c1
        c3 == IF b # c.last /\ sw /\ d2.op < NumTemplates /\ R.cost = 1 /\ d2.bits > MinCost(c, b)
                THEN Fail(c2, "cheaper template available") ELSE c2
        c4 == IF d2.bits > 69 THEN Fail(c3, "more than a raw block") ELSE c3
    IN [Insert(c4, b) EXCEPT !.rep = 0,
          !.refs = @ + (IF d2.op # 0 THEN 1 ELSE 0), !.data = @ + (IF d2.op = 0 THEN 1 ELSE 0)]

(* the reference compressor produced this stream *)
IsSw == R.t = "C" /\ sid > 0 /\ \E i \in 1..Len(R.calls) : R.calls[i].impl = SW /\ R.calls[i].idx = sid
IsOptAligned == R.t = "C" /\ sid > 0 /\ \E i \in 1..Len(R.calls) :
                   R.calls[i].impl = OPTSW /\ R.calls[i].idx = sid /\ R.calls[i].ia = 0 /\ R.calls[i].oa = 0

-----------------------------------------------------------------------------
Init == /\ rec \in 1..Len(Recs)
        /\ sid \in IF Recs[rec].t = "D" THEN {0}
                   ELSE IF Len(Recs[rec].outs) = 0 THEN {0} ELSE 1..Len(Recs[rec].outs)
        /\ d = IF Recs[rec].t # "D" /\ sid = 0 THEN [DecInit EXCEPT !.st = "none"] ELSE DecInit
        /\ m = 1..Len(Cand)
        /\ cost = IF Recs[rec].cost >= 1 THEN CostInit ELSE [ok |-> TRUE]

Step == /\ d.st = "run"
        /\ d' = DecOp(S, d)
        /\ m' = {j \in m : /\ d'.len <= Len(Cand[j])
                           /\ SubSeq(Cand[j], d.len + 1, d'.len) = d'.emit}
        /\ cost' = IF R.t = "C" /\ R.cost >= 1 THEN Account(cost, d', IsSw) ELSE cost
        /\ UNCHANGED <<rec, sid>>
Next == Step
Spec == Init /\ [][Next]_vars
(* what an error trace shows *)
Shown == [rec |-> rec, id |-> R.id, t |-> R.t, sid |-> sid, pos |-> d.pos, len |-> d.len,
          st |-> d.st, m |-> m, hw |-> d.hw,
          why |-> IF R.cost >= 1 THEN cost.why ELSE ""]
View == <<rec, sid, d.pos, d.st>>

Done == d.st # "run"
(* result j is exactly what has been decoded *)
Exact(j) == j \in m /\ Len(Cand[j]) = d.len

Calls == {R.calls[i] : i \in 1..Len(R.calls)}
Dec == {R.dec[i] : i \in 1..Len(R.dec)}

-----------------------------------------------------------------------------
(* Decompression *)
DDone == Done /\ R.t = "D"
(* whole 64-bit words are all that the optimized decoders read *)
InWords == d.pos <= 64 * (Len(S) \div 8)
MustAccept(c) == c.impl = SW \/ (d.hw /\ InWords)
Accepted(c) == c.ret = 0 /\ c.olen = d.len /\ c.idx > 0 /\ Exact(c.idx)
Rejected(c) == c.ret < 0 /\ c.olen = 0

(* what the format assigns to a well-formed stream *)
OkCall(c) ==
  IF c.cap >= d.len THEN Accepted(c) \/ (~MustAccept(c) /\ Rejected(c))
  ELSE Rejected(c)
SpaceCall(c) ==
  IF c.cap >= d.len THEN ~MustAccept(c) \/ c.ret = 0
  ELSE Rejected(c) /\ (MustAccept(c) => c.ret = ENOSPC)

(* a malformed stream *)
Malformed == {"truncated", "badindex", "norepeat", "badshort", "badop"}

InvFormat == DDone /\ d.st = "ok" => \A c \in Calls : OkCall(c)
InvReject == DDone => CASE d.st \in Malformed -> \A c \in Calls : Rejected(c)
                        [] d.st = "badcrc"    -> \A c \in Calls :
                              IF c.impl = CL THEN Rejected(c) \/ Accepted(c) ELSE Rejected(c)
                        [] OTHER -> TRUE
InvSpaceD == DDone /\ d.st = "ok" => \A c \in Calls : SpaceCall(c)
(* no success without a matching checksum; what is returned has it *)
InvChecksumD == DDone => \A c \in Calls :
                  (c.impl # CL /\ c.ret = 0 /\ d.st # "unspec") => (d.st = "ok" /\ Exact(c.idx))
(* no call crashes, aborts or hangs (1, 2); nothing outside the buffers is *)
(* written or read, the input stays as it was, sizes are within the        *)
(* capacity (3..6)                                                         *)
InvNoCrash == Done => \A c \in Calls \cup Dec : c.fault \notin {1, 2}
InvNoFault == Done => \A c \in Calls \cup Dec : c.fault = 0

-----------------------------------------------------------------------------
(* Compression *)
CDone == Done /\ R.t = "C"
Mult8 == Len(R.in) % 8 = 0
Mine == {c \in Calls : c.idx = sid}
PadOk == /\ Len(S) % 8 = 0
         /\ Len(S) = 8 * ((d.pos + 63) \div 64)
(* 69 bits per block, end marker, checksum *)
Bound == LET n == Len(R.in)
             bits == 69 * (n \div 8) + (IF n % 8 = 0 THEN 0 ELSE OpBits + ShortBits + 8 * (n % 8))
                     + OpBits + CrcBits
         IN 8 * ((bits + 63) \div 64)
InvWellFormed == CDone =>
   /\ sid > 0 => /\ d.st = "ok"
                 /\ PadOk
                 /\ Len(S) <= Bound
                 /\ Mult8 => d.hw
   /\ \A c \in Calls : /\ c.ret = 0 => c.idx > 0 /\ c.olen = Len(R.outs[c.idx])
                       /\ c.ret # 0 => Rejected(c)
                       /\ (c.impl = OPTSW /\ ~Mult8) => Rejected(c)
                       \* capacity for the worst case is always enough
                       /\ (c.cap >= Bound /\ (c.impl = SW \/ Mult8)) => c.ret = 0
(* it is a stream of exactly the input *)
InvEncodes == CDone /\ sid > 0 => d.st = "ok" /\ Exact(1)
(* the stored checksum is the checksum of the input *)
InvChecksumC == CDone /\ sid > 0 => d.st = "ok"
InvSpaceC == CDone => \A c \in Calls : c.amp > 0 =>
               IF c.cap >= Len(R.outs[c.amp]) THEN c.ret = 0 /\ c.idx = c.amp
                                              ELSE c.ret = ENOSPC /\ c.olen = 0
(* a compressor never refuses what it supports when there is ample space *)
InvAccepts == CDone => \A c \in Calls : (c.impl = SW \/ Mult8) /\ c.cap >= Bound => c.ret = 0

InvRoundTrip == CDone /\ sid > 0 =>
   \A c \in Dec : c.amp = sid =>
      IF c.impl = SW \/ (d.hw /\ InWords) THEN c.ret = 0 /\ c.olen = Len(R.in) /\ c.idx = 1
      ELSE (c.ret = 0 /\ c.olen = Len(R.in) /\ c.idx = 1) \/ Rejected(c)

(* equal calls have equal results *)
InvPure == Done =>
   \A i \in 1..Len(R.calls) : \A j \in 1..Len(R.calls) :
      LET a == R.calls[i]
          b == R.calls[j]
      IN (a.impl = b.impl /\ a.cap = b.cap /\ a.ia = b.ia /\ a.oa = b.oa)
           => (a.ret = b.ret /\ a.olen = b.olen /\ a.idx = b.idx)

InvEconomy == CDone /\ sid > 0 /\ R.cost >= 1 =>
   /\ cost.ok
   \* data with a short period: most blocks of the optimized compressor are not raw
   /\ (R.cost = 2 /\ IsOptAligned) => cost.refs >= cost.data
=============================================================================
