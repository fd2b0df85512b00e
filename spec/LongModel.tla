------------------------------ MODULE LongModel ------------------------------
(***************************************************************************)
(* LongRuns decodes what the plain decoder decodes: every short sequence of*)
(* operations, with rings of one and two blocks.                           *)
(***************************************************************************)
EXTENDS LongRuns
CONSTANTS MaxOps, MaxN
VARIABLES s, out, ops, ok
vars == <<s, out, ops, ok>>
A == <<1, 2, 3, 4, 5, 6, 7, 8>>
B == <<8, 7, 6, 5, 4, 3, 2, 1>>
Ops == {[op |-> 28, a |-> <<>>, n |-> n] : n \in 1..MaxN}
  \cup {[op |-> 0, a |-> <<v>>, n |-> n] : v \in {A, B, Zero8}, n \in 1..MaxN}
  \cup {[op |-> 27, a |-> <<<<k>>>>, n |-> n] : k \in {0, 2}, n \in 1..MaxN}
  \cup {[op |-> 25, a |-> <<<<i>>>>, n |-> n] : i \in 0..(2^I8Bits - 1), n \in 1..2}
  \cup {[op |-> 24, a |-> <<<<i>>, <<j>>>>, n |-> 1] : i, j \in 0..(2^I4Bits - 1)}
  \cup {[op |-> 8, a |-> <<<<9, 9>>, <<i>>, <<j>>, <<0>>>>, n |-> 1] : i, j \in 0..(2^I2Bits - 1)}
(* the plain decoder, on bytes; <<>> if a reference is not valid *)
RECURSIVE PlainBlock(_, _, _, _, _)
PlainBlock(o, t, a, i, acc) ==
  IF i > Len(t) THEN acc
  ELSE IF t[i][1] = "D" THEN PlainBlock(o, t, a, i + 1, acc \o a[i])
  ELSE IF ~ValidRef(Len(o), a[i][1], t[i][2]) THEN <<>>
  ELSE LET p == Resolve(Len(o), a[i][1], t[i][2]) IN PlainBlock(o, t, a, i + 1, acc \o SubSeq(o, p + 1, p + t[i][2]))
RECURSIVE Plain(_, _, _)
Plain(o, x, n) ==
  IF n = 0 THEN <<TRUE, o>>
  ELSE CASE x.op < NumTemplates -> LET b == PlainBlock(o, Template[x.op + 1], x.a, 1, <<>>)
                                   IN IF b = <<>> THEN <<FALSE, o>> ELSE Plain(o \o b, x, n - 1)
         [] x.op = OpZeros      -> Plain(o \o Zero8, x, n - 1)
         [] OTHER               -> IF Len(o) < 8 THEN <<FALSE, o>>
                                   ELSE Plain(o \o [i \in 1..(8 * (x.a[1][1] + 1)) |-> o[Len(o) - 7 + ((i - 1) % 8)]], x, n - 1)
RECURSIVE Flat(_, _)
Flat(runs, k) == IF k = 0 THEN <<>> ELSE Flat(runs, k - 1) \o [i \in 1..(8 * runs[k].n) |-> runs[k].v[((i - 1) % 8) + 1]]
BitsOf(x) == x.n * (CASE x.op < NumTemplates -> TemplateBits(x.op + 1) [] x.op = OpZeros -> OpBits [] OTHER -> OpBits + RepeatBits)
Init == s = LInit /\ out = <<>> /\ ops = <<>> /\ ok = TRUE
Next == /\ Len(ops) < MaxOps /\ ok
        /\ \E x \in Ops : /\ ops' = Append(ops, x) /\ s' = Step(s, x)
                          /\ LET p == Plain(out, x, x.n) IN ok' = p[1] /\ out' = p[2]
Spec == Init /\ [][Next]_vars
RECURSIVE SumOf(_)
SumOf(q) == IF q = <<>> THEN 0 ELSE BitsOf(q[1]) + SumOf(Tail(q))
InvSame == IF ok THEN /\ s.st = "run" /\ Flat(s.runs, Len(s.runs)) = out /\ 8 * s.len = Len(out)
                      /\ s.crc = Crc(out) /\ 64 * s.words + s.bits = SumOf(ops)
           ELSE s.st # "run"
InvMerged == \A k \in 2..Len(s.runs) : s.runs[k].v # s.runs[k - 1].v
=============================================================================
