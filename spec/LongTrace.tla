------------------------------ MODULE LongTrace ------------------------------
(***************************************************************************)
(* Recorded calls with inputs, outputs or capacities of 4 GiB and more.    *)
(*   ops    the operations of the stream, in runs                          *)
(*   enc    the call that wrote it: ret, olen, cap, and the data in runs   *)
(*          and the bytes beyond the last whole block; or none             *)
(*   dec    the calls that read it: impl, cap, ret, olen, runs, rest       *)
(* Sizes are pairs <<blocks of eight bytes, bytes beyond>>.                *)
(***************************************************************************)
EXTENDS LongRuns, Json, IOUtils
CONSTANT RecFile
Recs == ndJsonDeserialize(RecFile)
VARIABLES rec, i, s
R == Recs[rec]
Init == rec \in 1..Len(Recs) /\ i = 0 /\ s = LInit
Next == i < Len(R.ops) /\ s.st = "run" /\ i' = i + 1 /\ s' = Step(s, R.ops[i + 1]) /\ UNCHANGED rec
Spec == Init /\ [][Next]_<<rec, i, s>>
View == <<rec, i>>
Shown == [rec |-> rec, id |-> R.id, step |-> i, len |-> s.len, st |-> s.st, crc |-> s.crc, runs |-> s.runs, tight |-> s.tight]
Done == i = Len(R.ops) \/ s.st # "run"
ENOSPC == -28
EINVAL == -22
Whole(x) == <<x.len, Len(x.rest)>>
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
(* the size of the stream, padded to words *)
Words(x) == x.words + (IF x.bits > 0 THEN 1 ELSE 0)
InvNoFault == R.fault = 0
InvEncodes == Done => \A k \in DOMAIN R.enc : LET e == R.enc[k] IN
  e.ret = 0 /\ s.st = "ok" /\ i = Len(R.ops) /\ s.runs = e.runs /\ s.rest = e.rest
InvSize == Done => \A k \in DOMAIN R.enc : R.enc[k].olen = <<Words(s), 0>>
InvTight == Done => (R.enc # <<>> => s.tight)
InvDecodes == Done => \A k \in DOMAIN R.dec : LET e == R.dec[k] IN
  IF s.st = "ok" /\ Leq(Whole(s), e.cap)
    THEN e.ret = 0 /\ e.olen = Whole(s) /\ e.runs = s.runs /\ e.rest = s.rest
    ELSE e.olen = <<0, 0>> /\ (IF s.st = "ok" THEN e.ret = ENOSPC ELSE e.ret < 0)
=============================================================================
