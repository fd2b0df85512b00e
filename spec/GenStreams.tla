----------------------------- MODULE GenStreams -----------------------------
(***************************************************************************)
(* Generator of 842 streams: a writer that, at every step, emits one       *)
(* operation of the format, keeping track of what a decoder would have     *)
(* produced.  TLC runs it in simulation mode; every finished behaviour is  *)
(* printed as a list of <<value, width>> pairs, packed into bits by the    *)
(* harness and replayed into the real decoders.                            *)
(*                                                                         *)
(* A behaviour may end well (end marker and checksum) or in one of the ways*)
(* in which a stream can be malformed.                                     *)
(***************************************************************************)
EXTENDS Format842, Integers, Randomization, FiniteSets, Json

CONSTANTS MaxOps,      \* operations after the prefix
          PrefixLens     \* numbers of literal blocks to start with

VARIABLES pre,    \* content of the literal blocks at the start
          ops,    \* <<value, width>> pairs written after those
          g,      \* what a decoder knows (DecInit-like record)
          n,      \* operations still to be written
          phase,  \* "start", "run", "end", "done"
          tag     \* how it ended
vars == <<pre, ops, g, n, phase, tag>>

Rnd(S) == {RandomElement(S)}
Byte == 0..255
RndBytes(k) == TLCEval([i \in 1..k |-> RandomElement(Byte)])
(* literals: random, or from a small alphabet so that content recurs *)
Literal(k) == CASE RandomElement(1..3) = 1 -> TLCEval([i \in 1..k |-> RandomElement({0, 1})])
                [] OTHER -> RndBytes(k)
Bytes2Ops(b) == [i \in 1..Len(b) |-> <<b[i], 8>>]
Put(op, args) == ops \o <<<<op, 5>>>> \o args

(* classes of index arguments for entry size sz, given `total` bytes *)
NumIdx(sz) == 2^IdxBits(sz)
Cur(total, sz) == ((total % FifoSize(sz)) \div sz)          \* slot written next
IdxClass(total, sz) ==
  LET c == Cur(total, sz)
      k == NumIdx(sz)
  IN {0, 1, c, (c + 1) % k, (c + k - 1) % k, (c + 8 \div sz) % k, k - 1, k \div 2,
      RandomElement(0..k-1), RandomElement(0..k-1)}
ValidIdx(total, sz) == {i \in IdxClass(total, sz) : ValidRef(total, i, sz)}
BadIdx(total, sz) == {i \in IdxClass(total, sz) : ~ValidRef(total, i, sz)}

(* The arguments of template t as a sequence of <<bytes, pairs>> *)
RECURSIVE Build(_, _, _)
Build(t, i, acc) ==
  IF i > Len(t) THEN acc
  ELSE LET sz == t[i][2] IN
    IF t[i][1] = "D"
      THEN LET b == Literal(sz)
           IN Build(t, i + 1, [acc EXCEPT !.b = @ \o b, !.p = @ \o Bytes2Ops(b)])
      ELSE LET total == Referable(g.len)
               x == RandomElement(ValidIdx(total, sz))
           IN Build(t, i + 1,
                [acc EXCEPT !.b = @ \o Past(g, Resolve(total, x, sz), sz),
                            !.p = @ \o <<<<x, IdxBits(sz)>>>>])

(* any reference is possible once there is one block (slot 0 is then valid) *)
Usable(t) == HasIndex(t) => g.len >= 8 /\ g.len % 8 = 0

Init == /\ pre = <<>> /\ ops = <<>> /\ g = DecInit /\ phase = "start" /\ n = 0 /\ tag = ""

Start == /\ phase = "start"
         /\ \E k \in Rnd(PrefixLens) : \E bs \in {RndBytes(8 * k)} :
              /\ pre' = bs /\ ops' = <<>>
              /\ g' = Emit(DecInit, 0, 0, bs)
         /\ n' \in Rnd({RandomElement(0..MaxOps), RandomElement(1..MaxOps), RandomElement(1..MaxOps)})
         /\ phase' = "run"
         /\ UNCHANGED tag

EmitTemplate ==
  \E t \in Rnd({u \in 1..NumTemplates : Usable(Template[u])}) :
  \E a \in {TLCEval(Build(Template[t], 1, [b |-> <<>>, p |-> <<>>]))} :
     /\ ops' = Put(t - 1, a.p)
     /\ g' = Emit(g, t - 1, 0, a.b)
EmitRepeat ==
  \E k \in Rnd({0, 1, 2, 62, 63, RandomElement(0..63)}) :
     /\ ops' = Put(OpRepeat, <<<<k, 6>>>>)
     /\ g' = Emit(g, OpRepeat, 0, [i \in 1..(8 * (k + 1)) |-> Past(g, g.len - 8, 8)[((i - 1) % 8) + 1]])
EmitZeros == ops' = Put(OpZeros, <<>>) /\ g' = Emit(g, OpZeros, 0, <<0, 0, 0, 0, 0, 0, 0, 0>>)
EmitShort == \E k \in Rnd(1..7) : \E b \in {Literal(k)} :
     /\ ops' = Put(OpShort, <<<<k, 3>>>> \o Bytes2Ops(b))
     /\ g' = [Emit(g, OpShort, 0, b) EXCEPT !.hw = FALSE]

Op == /\ phase = "run" /\ n > 0
      /\ \E c \in Rnd(1..24) :
           CASE c = 1 /\ g.len >= 8 -> EmitRepeat
             [] c = 2 -> EmitZeros
             [] c = 3 /\ RandomElement(1..6) = 1 -> EmitShort
             [] OTHER -> EmitTemplate
      /\ n' = n - 1
      /\ UNCHANGED <<pre, phase, tag>>

(* endings *)
Crc2Ops(c) == <<<<c[1], 16>>, <<c[2], 16>>>>
Good   == ops' = Put(OpEnd, Crc2Ops(g.crc)) /\ tag' = "ok"
(* the checksum altered: one bit, all bits, absent, or its halves exchanged *)
BadCrc == \E w \in Rnd(1..2), bit \in Rnd(0..15), x \in Rnd(1..8) :
            /\ ops' = Put(OpEnd, Crc2Ops(
                  CASE x = 1 -> <<0, 0>>
                    [] x = 2 -> <<65535 ^^ g.crc[1], 65535 ^^ g.crc[2]>>
                    [] x = 3 -> <<g.crc[2], g.crc[1]>>
                    [] x = 4 -> <<RandomElement(0..65535), RandomElement(0..65535)>>
                    [] OTHER -> [g.crc EXCEPT ![w] = @ ^^ P2(bit)]))
            /\ tag' = "badcrc"

(* Streams that are malformed for another reason than their checksum end   *)
(* with the checksum that a decoder which does not notice would arrive at: *)
(* being rejected must not be a matter of luck.                            *)
EndWith(c) == <<<<OpEnd, 5>>>> \o Crc2Ops(c)
(* undefined operation: taken for a no-operation, or for a literal block, or the end of the stream *)
BadOp  == \E o \in Rnd({26, 31}), x \in Rnd(1..3) : \E b \in {RndBytes(8)} :
            /\ ops' = Put(o, CASE x = 1 -> EndWith(g.crc)
                               [] x = 2 -> Bytes2Ops(b) \o EndWith(CrcFrom(g.crc, b))
                               [] x = 3 -> Crc2Ops(g.crc))
            /\ tag' = "badop"
(* nothing to repeat: taken for zeros or for nothing *)
Zeros8(k) == [i \in 1..8 * k |-> 0]
BadRep == /\ g.len < 8
          /\ \E k \in Rnd({0, 1, RandomElement(0..63)}), x \in Rnd(1..2) :
               ops' = Put(OpRepeat, <<<<k, 6>>>> \o EndWith(IF x = 1 THEN g.crc ELSE CrcFrom(g.crc, Zeros8(k + 1))))
          /\ tag' = "norepeat"
(* short data of no bytes: taken for nothing, or for the end *)
BadShort == \E x \in Rnd(1..2) :
            /\ ops' = Put(OpShort, <<<<0, 3>>>> \o IF x = 1 THEN EndWith(g.crc) ELSE Crc2Ops(g.crc))
            /\ tag' = "badshort"
Cut    == ops' = ops /\ tag' = "cut"
(* An index to data that has not been produced, in a random position of a  *)
(* random template.  A decoder that does not notice finds there what the   *)
(* current block already consists of, and otherwise zeros.                 *)
Lenient(off, sz, acc) ==
  [i \in 1..sz |-> LET p == off + i - 1 IN
     IF p < g.len THEN Past(g, p, 1)[1] ELSE IF p < g.len + Len(acc) THEN acc[p - g.len + 1] ELSE 0]
RECURSIVE BuildBad(_, _, _, _)
BuildBad(t, i, at, acc) ==
  IF i > Len(t) THEN acc
  ELSE LET sz == t[i][2] IN
    IF t[i][1] = "D"
      THEN LET b == Literal(sz)
           IN BuildBad(t, i + 1, at, [acc EXCEPT !.b = @ \o b, !.p = @ \o Bytes2Ops(b)])
      ELSE LET total == Referable(g.len)
               V == IF ValidIdx(total, sz) = {} THEN IdxClass(total, sz) ELSE ValidIdx(total, sz)
               x == RandomElement(IF i = at THEN BadIdx(total, sz) ELSE V)
           IN BuildBad(t, i + 1, at,
                [acc EXCEPT !.b = @ \o Lenient(Resolve(total, x, sz), sz, @),
                            !.p = @ \o <<<<x, IdxBits(sz)>>>>])
BadRefs == IF g.len % 8 # 0 THEN {} ELSE {<<t, i>> \in (1..NumTemplates) \X (1..4) :
              /\ i <= Len(Template[t]) /\ Template[t][i][1] = "I"
              /\ BadIdx(Referable(g.len), Template[t][i][2]) # {}}
BadIndex == \E B \in {BadRefs} : IF B = {} THEN Cut
            ELSE \E x \in Rnd(B), y \in Rnd(1..6) :
              \E a \in {TLCEval(BuildBad(Template[x[1]], 1, x[2], [b |-> <<>>, p |-> <<>>]))} :
              /\ ops' = Put(x[1] - 1, a.p \o EndWith(IF y = 1 THEN g.crc ELSE CrcFrom(g.crc, a.b)))
              /\ tag' = "badindex"

Stop == /\ phase = "run" /\ n = 0
        /\ \E c \in Rnd(1..16) :
             CASE c = 1 -> BadCrc [] c = 2 -> BadOp [] c = 3 -> BadIndex [] c = 4 -> BadIndex
               [] c = 5 -> IF g.len < 8 THEN BadRep ELSE BadIndex
               [] c = 6 -> BadShort [] c = 7 -> Cut
               [] OTHER -> Good
        /\ phase' = "end" /\ UNCHANGED <<pre, g, n>>

Finish == /\ phase = "end"
          /\ PrintT("STREAM " \o ToJson([tag |-> tag, pre |-> pre, ops |-> ops, hw |-> g.hw, len |-> g.len]))
          /\ phase' = "done" /\ UNCHANGED <<pre, ops, g, n, tag>>
Next == Start \/ Op \/ Stop \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
