------------------------------- MODULE CLBatch -------------------------------
(***************************************************************************)
(* Validates recorded calls of the OpenCL decompressors.                   *)
(*                                                                         *)
(* A record is one chunk of a buffer together with everything that several *)
(* calls (host or device interface, different orders, offsets and optional *)
(* arguments) did with that chunk.  The model decides what kind of chunk it*)
(* is, decodes it on its own with Format842, one operation per step, and   *)
(* says what its return value, size and content have to be.                *)
(*                                                                         *)
(*   fmt 0: always compressed, fmt 1: maybe compressed, fmt 2: in place    *)
(*   slot: bytes available to the chunk, before: its part of the output    *)
(*   buffer before the calls, outs: distinct contents of it afterwards     *)
(*   runs: [api, hasr, haso, hasi, ret, olen, idx, frame]                  *)
(***************************************************************************)
EXTENDS Format842, Integers, Json, IOUtils, FiniteSets

CONSTANT RecFile
Recs == ndJsonDeserialize(RecFile)
ENOSPC == -28
EINVAL == -22

VARIABLES rec, kind, s, d, m, over
vars == <<rec, kind, s, d, m, over>>
R == Recs[rec]

Marker == <<190, 90, 70, 191, 151, 229, 45, 215, 178, 124, 148, 26, 238, 214, 112, 118>>
HasMarker(r) == Len(r.slot) >= 24 /\ SubSeq(r.slot, 1, 16) = Marker
(* the size after the marker, as far as it can be that of a chunk *)
SizeField(r) == IF \A i \in 20..24 : r.slot[i] = 0
                  THEN r.slot[17] + 256 * r.slot[18] + 65536 * r.slot[19]
                  ELSE 16777216
Kind(r) == IF r.slot = <<>> THEN "none"
           ELSE IF r.fmt = 0 THEN "stream"
           ELSE IF ~HasMarker(r) THEN "raw"
           ELSE LET z == SizeField(r) IN
                IF z = 0 THEN "skip"
                ELSE IF z > r.chunk THEN "oversize"
                ELSE IF z % 8 # 0 \/ z > r.chunk - 24 THEN "unspec" ELSE "stream"
Stream(r) == CASE Kind(r) # "stream" -> <<>>
               [] r.fmt = 0 -> SubSeq(r.slot, 1, r.ilen)
               [] OTHER -> SubSeq(r.slot, r.chunk - SizeField(r) + 1, r.chunk)

Init == /\ rec \in 1..Len(Recs)
        /\ kind = Kind(Recs[rec])
        /\ s = Stream(Recs[rec])
        /\ d = IF Kind(Recs[rec]) = "stream" THEN DecInit ELSE [DecInit EXCEPT !.st = "none"]
        /\ m = 1..Len(Recs[rec].outs)
        /\ over = FALSE
(* words read ahead by the in-place decoder *)
Lookahead == 6
Unread(dd) == R.chunk - Len(s) + 8 * ((dd.pos + 63) \div 64 + Lookahead)
Step == /\ d.st = "run"
        /\ d' = DecOp(s, d)
        /\ m' = {j \in m : /\ d'.len <= R.chunk
                           /\ SubSeq(R.outs[j], d.len + 1, d'.len) = d'.emit}
        /\ over' = (over \/ (R.fmt = 2 /\ d'.len > Unread(d')))
        /\ UNCHANGED <<rec, kind, s>>
Spec == Init /\ [][Step]_vars
View == <<rec, d.pos, d.st>>
Shown == [rec |-> rec, id |-> R.id, kind |-> kind, pos |-> d.pos, len |-> d.len, st |-> d.st, m |-> m, over |-> over]

Done == d.st # "run"
Runs == {R.runs[i] : i \in 1..Len(R.runs)}
InWords == d.pos <= 64 * (Len(s) \div 8)
MustAccept == d.hw /\ InWords

(* what has been observed is compatible with ... *)
Accepted(r) == /\ r.hasr = 1 => r.ret = 0
               /\ r.haso = 1 => r.olen = d.len
               /\ r.idx \in m
Rejected(r) == /\ r.hasr = 1 => r.ret < 0
               /\ r.haso = 1 => r.olen = 0
Fits(r) == r.haso = 0 \/ d.len <= R.cap
Whole(r, content) == /\ r.hasr = 1 => r.ret = 0
                     /\ r.haso = 1 => r.olen = R.chunk
                     /\ R.outs[r.idx] = content

(* every chunk is decoded as if it were alone *)
InvChunks == Done => \A r \in Runs :
  CASE kind = "raw"  -> Whole(r, R.slot)
    [] kind = "skip" -> Whole(r, R.before)
    [] kind = "oversize" -> Rejected(r)
    [] kind \in {"unspec", "none"} -> TRUE
    [] over -> TRUE
    [] d.st = "ok" -> IF Fits(r) THEN Accepted(r) \/ (~MustAccept /\ Rejected(r)) ELSE Rejected(r)
    [] d.st = "badcrc" -> Rejected(r) \/ (Fits(r) /\ Accepted(r))
    [] d.st = "unspec" -> TRUE
    [] OTHER -> Rejected(r)
(* lack of space is reported as such, and only that *)
InvSpace == Done /\ kind = "stream" /\ ~over /\ d.st = "ok" /\ MustAccept =>
   \A r \in Runs : r.hasr = 1 => (r.ret = IF Fits(r) THEN 0 ELSE ENOSPC)
(* all calls agree *)
InvSame == Done /\ ~over => \A a \in Runs : \A b \in Runs : (a.hasi = b.hasi \/ InWords) =>
   /\ (a.hasr = 1 /\ b.hasr = 1 /\ a.haso = b.haso) => a.ret = b.ret
   /\ (a.haso = 1 /\ b.haso = 1) => a.olen = b.olen
(* nothing outside the capacity of the chunk changes, nor anything outside *)
(* the chunks, nor the input                                               *)
InvFrame == Done => \A r \in Runs :
   /\ r.frame = 0
   \* (the host interface fills the output buffer as a whole)
   /\ (kind \in {"stream", "oversize"} /\ r.haso = 1 /\ (r.api = 1 \/ R.fmt # 0)) =>
         \A k \in R.cap+1..R.chunk : R.outs[r.idx][k] = R.before[k]
InvNoCrash == R.fault = 0
=============================================================================
