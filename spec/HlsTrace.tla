------------------------------ MODULE HlsTrace ------------------------------
(***************************************************************************)
(* Recorded runs of the real tokenizer: token after token against the bits. *)
(***************************************************************************)
EXTENDS HlsTokens, Json, IOUtils
CONSTANT RecFile
Recs == ndJsonDeserialize(RecFile)
VARIABLES rec, i, pos, lost
vars == <<rec, i, pos, lost>>
R == Recs[rec]
Total == 8 * Len(R.in)
(* the operation at pos, as the tokenizer has to see it *)
Seen(p) == IF Total - p < OpBits THEN OpEnd
           ELSE LET op == GetBits(R.in, p, OpBits) IN IF Total - p < OperBits(op) THEN OpEnd ELSE op
(* byte k of a token that holds n bits of the stream from p on *)
Expect(p, n, k) == LET from == 8 * (k - 1)
                       here == IF n <= from THEN 0 ELSE IF n - from >= 8 THEN 8 ELSE n - from
                   IN IF here = 0 THEN 0 ELSE GetBits(R.in, p + from, here) * 2^(8 - here)
Ended == [k \in 1..9 |-> IF k = 1 THEN OpEnd * 8 ELSE 0]
Token(p, op) == IF op = OpEnd THEN Ended ELSE [k \in 1..9 |-> Expect(p, OperBits(op), k)]
Good(p, tok, last) == LET op == Seen(p) IN tok = Token(p, op) /\ last = (IF op = OpEnd THEN 1 ELSE 0)

Init == rec \in 1..Len(Recs) /\ i = 0 /\ pos = 0 /\ lost = FALSE
Next == /\ i < Len(R.toks) /\ i' = i + 1 /\ UNCHANGED rec
        /\ LET op == Seen(pos) IN
             /\ pos' = (IF lost THEN pos ELSE pos + OperBits(op))
             \* nothing is said of what follows an operation that the hardware does not have
             /\ lost' = (lost \/ op \notin Known)
Spec == Init /\ [][Next]_vars
View == <<rec, i>>
Shown == [rec |-> rec, id |-> R.id, step |-> i, pos |-> pos, seen |-> Seen(pos), token |-> IF i < Len(R.toks) THEN R.toks[i + 1] ELSE <<>>,
          expected |-> Token(pos, Seen(pos))]
(* it reads no more words than there are, writes a token for every operation, and stops *)
InvEnds == R.fault = 0 /\ (i = Len(R.toks) => i > 0 /\ R.lasts[i] = 1)
InvTokens == (i < Len(R.toks) /\ ~lost /\ Seen(pos) \in Known) => Good(pos, R.toks[i + 1], R.lasts[i + 1])
InvOneEnd == (i < Len(R.toks) /\ i > 0) => R.lasts[i] = 0
=============================================================================
