----------------------------- MODULE CodecModel -----------------------------
(***************************************************************************)
(* The design of the format, exhaustively, with small rings.               *)
(*                                                                         *)
(* An encoder that keeps its rings the way compressors do (an array of     *)
(* slots per entry size, filled in order, the oldest entry overwritten)    *)
(* chooses nondeterministically among everything it may write: any         *)
(* template all of whose references hit, repeats, zeros, a short tail, the *)
(* end marker.  The decoder of Format842, which has no rings but computes  *)
(* positions in its output, reads each operation.  The two have to agree   *)
(* on every reference, and the decoder must restore exactly what was       *)
(* encoded, whatever the encoder chose.                                    *)
(***************************************************************************)
EXTENDS Format842, Integers, FiniteSets

CONSTANTS MaxBlocks, MaxRep

VARIABLES enc,   \* [data, r2, r4, r8, bits]: what was encoded, the rings, bits written
          d      \* the decoder
vars == <<enc, d>>

None == -1
(* halfwords 0 and 1 in patterns that hit and miss every kind of ring *)
H(x) == <<x \div 256, x % 256>>
Blk(a, b, c, e) == H(a) \o H(b) \o H(c) \o H(e)
Blocks == {Blk(0,0,0,0), Blk(1,1,1,1), Blk(0,1,0,1), Blk(0,1,2,0), Blk(2,0,0,1), Blk(1,2,0,1)}

Hw(b, i) == b[i] * 256 + b[i + 1]
Size(k) == 2 ^ k
Rings == [r2 |-> [i \in 0..Size(I2Bits)-1 |-> <<>>], r4 |-> [i \in 0..Size(I4Bits)-1 |-> <<>>],
          r8 |-> [i \in 0..Size(I8Bits)-1 |-> <<>>], n2 |-> 0, n4 |-> 0, n8 |-> 0]
Put2(e, v) == [e EXCEPT !.r2[e.n2] = v, !.n2 = (@ + 1) % Size(I2Bits)]
Put4(e, v) == [e EXCEPT !.r4[e.n4] = v, !.n4 = (@ + 1) % Size(I4Bits)]
Put8(e, v) == [e EXCEPT !.r8[e.n8] = v, !.n8 = (@ + 1) % Size(I8Bits)]
Put(e, b) == Put8(Put4(Put4(Put2(Put2(Put2(Put2(e, SubSeq(b,1,2)), SubSeq(b,3,4)), SubSeq(b,5,6)), SubSeq(b,7,8)),
                            SubSeq(b,1,4)), SubSeq(b,5,8)), b)
RECURSIVE PutN(_, _, _)
PutN(e, b, k) == IF k = 0 THEN e ELSE PutN(Put(e, b), b, k - 1)
Slots(e, size) == CASE size = 2 -> e.r2 [] size = 4 -> e.r4 [] size = 8 -> e.r8

(* bit strings as sequences of <<value, width>>, packed into bytes *)
RECURSIVE ToBits(_, _)
ToBits(v, w) == IF w = 0 THEN <<>> ELSE ToBits(v \div 2, w - 1) \o <<v % 2>>
RECURSIVE Flat(_, _)
Flat(f, i) == IF i > Len(f) THEN <<>> ELSE ToBits(f[i][1], f[i][2]) \o Flat(f, i + 1)
Bit(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
Bytes(f) == LET b == Flat(f, 1) IN
  [i \in 1..((Len(b) + 7) \div 8) |->
     LET B(j) == Bit(b, 8 * (i - 1) + j) IN
     128*B(1) + 64*B(2) + 32*B(3) + 16*B(4) + 8*B(5) + 4*B(6) + 2*B(7) + B(8)]
RECURSIVE Width(_, _)
Width(f, i) == IF i > Len(f) THEN 0 ELSE f[i][2] + Width(f, i + 1)

(* all the ways to write block b with the actions t[i..] *)
RECURSIVE Ways(_, _, _, _, _)
Ways(e, b, t, i, off) ==
  IF i > Len(t) THEN {<<>>}
  ELSE LET rest == Ways(e, b, t, i + 1, off + t[i][2])
           v == SubSeq(b, off + 1, off + t[i][2])
           firsts == IF t[i][1] = "D" THEN {[j \in 1..t[i][2] |-> <<v[j], 8>>]}
                     ELSE {<< <<k, IdxBits(t[i][2])>> >> : k \in {x \in DOMAIN Slots(e, t[i][2]) : Slots(e, t[i][2])[x] = v}}
       IN {p[1] \o p[2] : p \in firsts \X rest}

-----------------------------------------------------------------------------
Init == enc = [rings |-> Rings, data |-> <<>>, bits |-> 0, fin |-> FALSE] /\ d = DecInit

Read(f) == d' = [DecOp(Bytes(f), [d EXCEPT !.pos = 0]) EXCEPT !.pos = 0, !.bits = 0, !.op = 0, !.emit = <<>>]
NBlocks == Len(enc.data) \div 8
More == ~enc.fin /\ NBlocks < MaxBlocks
(* only the worst case matters for the length: keep the longest            *)
Wr(r, data, f) == enc' = [enc EXCEPT !.rings = r, !.data = @ \o data]

WriteTemplate(b) == More /\ \E t \in 1..NumTemplates : \E f \in Ways(enc.rings, b, Template[t], 1, 0) :
                      /\ Read(<< <<t - 1, OpBits>> >> \o f)
                      /\ Wr(Put(enc.rings, b), b, f)
WriteZeros == More /\ Read(<< <<OpZeros, OpBits>> >>) /\ Wr(Put(enc.rings, <<0,0,0,0,0,0,0,0>>), <<0,0,0,0,0,0,0,0>>, <<>>)
WriteRepeat(k) == /\ More /\ NBlocks > 0
                  /\ LET b == SubSeq(enc.data, Len(enc.data) - 7, Len(enc.data)) IN
                     /\ Read(<< <<OpRepeat, OpBits>>, <<k - 1, RepeatBits>> >>)
                     /\ Wr(PutN(enc.rings, b, k), [i \in 1..8*k |-> b[((i - 1) % 8) + 1]], <<>>)
WriteShort(n) == /\ ~enc.fin /\ Len(enc.data) % 8 = 0
                 /\ LET v == [i \in 1..n |-> i] IN
                    /\ Read(<< <<OpShort, OpBits>>, <<n, ShortBits>> >> \o [i \in 1..n |-> <<v[i], 8>>])
                    /\ enc' = [enc EXCEPT !.data = @ \o v, !.fin = TRUE]
WriteEnd == /\ d.st = "run"
            /\ LET c == Crc(enc.data) IN Read(<< <<OpEnd, OpBits>>, <<c[1], 16>>, <<c[2], 16>> >>)
            /\ enc' = [enc EXCEPT !.fin = TRUE]
(* every other checksum is refused *)
WriteWrongEnd == /\ d.st = "run"
                 /\ LET c == Crc(enc.data) IN
                    \E x \in {<<c[1], c[2] ^^ 1>>, <<c[1] ^^ 32768, c[2]>>} :
                       Read(<< <<OpEnd, OpBits>>, <<x[1], 16>>, <<x[2], 16>> >>)
                 /\ enc' = [enc EXCEPT !.fin = TRUE, !.bits = 1]

Next == \/ \E b \in Blocks : WriteTemplate(b)
        \/ WriteZeros
        \/ \E k \in 1..MaxRep : WriteRepeat(k)
        \/ \E n \in {1, 4, 7} : WriteShort(n)
        \/ WriteEnd \/ WriteWrongEnd
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* the decoder restores exactly the data, whatever was chosen *)
Agree == /\ d.len = Len(enc.data)
         /\ d.win = Tail842(enc.data)
         /\ d.crc = Crc(enc.data)
NoLoss == d.st \in (IF enc.bits = 1 THEN {"badcrc"} ELSE IF enc.fin THEN {"run", "ok"} ELSE {"run"})
(* an index is valid for the decoder exactly if the encoder's slot is      *)
(* filled, and denotes the same bytes                                      *)
RingsAgree == ~enc.fin => \A size \in {2, 4, 8} : \A k \in DOMAIN Slots(enc.rings, size) :
   LET slot == Slots(enc.rings, size)[k]
       total == Referable(d.len)
   IN (slot # <<>>) = ValidRef(total, k, size)
      /\ (slot # <<>> => /\ Past(d, Resolve(total, k, size), size) = slot
                         \* the window suffices
                         /\ Resolve(total, k, size) >= d.len - Len(d.win))
(* what is kept of the output always suffices *)
Windowed == Len(d.win) <= WinMax
=============================================================================
