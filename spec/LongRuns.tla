------------------------------ MODULE LongRuns ------------------------------
(***************************************************************************)
(* The decoder of Format842 for streams whose output is far too long to be *)
(* written down: more than 4 GiB.  Output and stream are sequences of runs *)
(* - n equal blocks, n equal operations - and lengths are counted in       *)
(* blocks, which TLC's integers can hold.  The checksum of a run comes from*)
(* repeated squaring of the linear map that one block is.                  *)
(***************************************************************************)
EXTENDS Format842, Integers

\* a run [n, v]: n times the block v
Grow(runs, v, n) ==
  IF n = 0 THEN runs
  ELSE IF runs # <<>> /\ runs[Len(runs)].v = v THEN [runs EXCEPT ![Len(runs)].n = @ + n]
  ELSE Append(runs, [n |-> n, v |-> v])
RECURSIVE AtFrom(_, _, _, _)
AtFrom(runs, k, from, b) == IF b >= from THEN runs[k].v ELSE AtFrom(runs, k - 1, from - runs[k - 1].n, b)
\* the block with number b < len
At(runs, len, b) == AtFrom(runs, Len(runs), len - runs[Len(runs)].n, b)

(* The ring-buffer rule of Format842!Resolve, counted in blocks            *)
RingBlocks(size) == FifoSize(size) \div 8
PerBlock(size) == 8 \div size
BlockOf(total, idx, size) ==
  LET rb  == RingBlocks(size)
      b   == idx \div PerBlock(size)
      sec == (total \div rb) * rb
  IN IF total > rb THEN (IF b >= total - sec THEN b + sec - rb ELSE b + sec) ELSE b
RefBytes(v, idx, size) == LET p == (idx % PerBlock(size)) * size IN SubSeq(v, p + 1, p + size)

-----------------------------------------------------------------------------
(* Checksums.  A linear map is the sequence of the images of the 32 bits,  *)
(* the most significant first.                                             *)
XorC(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
BitOf(c, i) == IF i <= 16 THEN (c[1] \div P2(16 - i)) % 2 ELSE (c[2] \div P2(32 - i)) % 2
Unit(i) == IF i <= 16 THEN <<P2(16 - i), 0>> ELSE <<0, P2(32 - i)>>
Apply(m, c) == FoldLeft(LAMBDA a, i : IF BitOf(c, i) = 1 THEN XorC(a, m[i]) ELSE a, <<0, 0>>, [i \in 1..32 |-> i])
Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
OneBlock == TLCEval([i \in 1..32 |-> CrcFrom(Unit(i), Zero8)])
Squares == FoldLeft(LAMBDA s, k : Append(s, TLCEval([i \in 1..32 |-> Apply(s[k], s[k][i])])), <<OneBlock>>, [k \in 1..29 |-> k])
(* checksum c, continued by n blocks v.  2^k blocks map c to               *)
(* Squares[k + 1] c + add, where add is doubled along with the map.        *)
CrcRun(c, v, n) ==
  LET sq == TLCEval(Squares)
      step(a, k) == TLCEval([n   |-> a.n \div 2,
                             add |-> XorC(Apply(sq[k], a.add), a.add),
                             c   |-> IF a.n % 2 = 1 THEN XorC(Apply(sq[k], a.c), a.add) ELSE a.c])
  IN FoldLeft(step, [n |-> n, add |-> CrcFrom(<<0, 0>>, v), c |-> c], [k \in 1..30 |-> k]).c

-----------------------------------------------------------------------------
(* State: len blocks and then `rest` (the bytes of short data); words and  *)
(* bits: the position in the stream, in 64-bit words and bits beyond them. *)
LInit == [len |-> 0, runs |-> <<>>, rest |-> <<>>, words |-> 0, bits |-> 0, crc |-> <<0, 0>>, st |-> "run", rk |-> 0, tight |-> TRUE]

(* n operations of w bits each: w*n would overflow                         *)
RECURSIVE Advance(_, _, _)
Advance(s, w, n) ==
  IF n >= 64 THEN Advance([s EXCEPT !.words = @ + w * (n \div 64)], w, n % 64)
  ELSE LET t == s.bits + w * n IN [s EXCEPT !.words = @ + t \div 64, !.bits = t % 64]
Produce(s, v, n) ==
  [s EXCEPT !.runs = Grow(@, v, n), !.len = @ + n, !.crc = CrcRun(@, v, n),
            \* a block equal to its predecessor that was not written as part of a repeat
            !.tight = @ /\ n = 1 /\ (s.len = 0 \/ At(s.runs, s.len, s.len - 1) # v)]

RECURSIVE Block(_, _, _, _, _)
Block(s, t, a, i, acc) ==
  IF i > Len(t) THEN acc
  ELSE IF t[i][1] = "D" THEN Block(s, t, a, i + 1, acc \o a[i])
  ELSE LET b == BlockOf(s.len, a[i][1], t[i][2])
       IN IF b >= s.len THEN <<>>
          ELSE Block(s, t, a, i + 1, acc \o RefBytes(At(s.runs, s.len, b), a[i][1], t[i][2]))
RECURSIVE Times(_, _, _, _)
Times(s, t, a, n) ==
  IF n = 0 \/ s.st # "run" THEN s
  ELSE LET v == Block(s, t, a, 1, <<>>)
       IN IF v = <<>> THEN [s EXCEPT !.st = "badindex"] ELSE Times(Produce(s, v, 1), t, a, n - 1)

(* o = [op, a, n]: n times the operation with arguments a - for a template *)
(* one sequence per action, bytes or the index; else one number.           *)
(* rk: length of the repeat just before, 0 if there is none; tight: blocks *)
(* equal to their predecessors are all in repeats, as long as possible.    *)
Step(s, o) ==
  LET r == [s EXCEPT !.rk = 0] IN
  CASE o.op < NumTemplates ->
         LET t == Template[o.op + 1]
             w == Advance(r, TemplateBits(o.op + 1), o.n)
         IN IF ~HasIndex(t) THEN Produce(w, Block(s, t, o.a, 1, <<>>), o.n)
            ELSE IF o.n > 1000 THEN [s EXCEPT !.st = "toolong"]
            ELSE Times(w, t, o.a, o.n)
    [] o.op = OpRepeat ->
         IF s.len = 0 THEN [s EXCEPT !.st = "norepeat"]
         ELSE LET k == o.a[1][1] + 1
                  v == At(s.runs, s.len, s.len - 1)
              IN Advance([s EXCEPT !.runs = Grow(@, v, k * o.n), !.len = @ + k * o.n, !.crc = CrcRun(@, v, k * o.n),
                                   !.rk = k, !.tight = @ /\ s.rk \in {0, 64} /\ (o.n > 1 => k = 64)],
                         OpBits + RepeatBits, o.n)
    [] o.op = OpZeros -> Advance(Produce(r, Zero8, o.n), OpBits, o.n)
    [] o.op = OpShort -> [Advance(r, OpBits + ShortBits + 8 * Len(o.a[1]), 1) EXCEPT !.rest = o.a[1], !.crc = CrcFrom(@, o.a[1])]
    [] o.op = OpEnd   -> [Advance(r, OpBits + CrcBits, 1) EXCEPT !.st = IF o.a[1] = s.crc THEN "ok" ELSE "badcrc"]
    [] OTHER -> [s EXCEPT !.st = "badop"]
=============================================================================
