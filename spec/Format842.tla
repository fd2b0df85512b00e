----------------------------- MODULE Format842 -----------------------------
(***************************************************************************)
(* The 842 compressed format, as a state machine over bits.                *)
(*                                                                         *)
(* This module is the single source of truth for the bitstream: the        *)
(* template table, the ring-buffer index rule, the special operations, the *)
(* end marker, the checksum and the padding.  It is written from the format*)
(* description (src/common/842.h), not from any of the implementations,    *)
(* and it is parametric in the widths of the index arguments, so that the  *)
(* same definitions serve                                                  *)
(*   - the small-constant exhaustive design model  (CodecModel.tla),       *)
(*   - the generator of conforming streams         (GenStreams.tla),       *)
(*   - the validation of recorded calls            (CodecTrace.tla).       *)
(*                                                                         *)
(* Bytes are naturals 0..255; a bitstream is a sequence of bytes and a bit *)
(* position.  TLC integers are 32-bit, so nothing here ever reads more than*)
(* 16 bits at once and the checksum is kept as two 16-bit halves.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Bitwise, SequencesExt, TLC

CONSTANTS I2Bits, I4Bits, I8Bits   \* widths of the index arguments (8, 9, 8)

-----------------------------------------------------------------------------
(* Operation codes *)
OpRepeat == 27   \* 0x1B
OpZeros  == 28   \* 0x1C
OpShort  == 29   \* 0x1D   (software-only)
OpEnd    == 30   \* 0x1E
NumTemplates == 26
OpBits == 5
RepeatBits == 6
ShortBits == 3

(* A template is a sequence of actions; each is <<kind, size in bytes>>. *)
D2 == <<"D", 2>>
D4 == <<"D", 4>>
D8 == <<"D", 8>>
I2 == <<"I", 2>>
I4 == <<"I", 4>>
I8 == <<"I", 8>>

Template == <<
  <<D8>>,             <<D4, D2, I2>>,     <<D4, I2, D2>>,     <<D4, I2, I2>>,
  <<D4, I4>>,         <<D2, I2, D4>>,     <<D2, I2, D2, I2>>, <<D2, I2, I2, D2>>,
  <<D2, I2, I2, I2>>, <<D2, I2, I4>>,     <<I2, D2, D4>>,     <<I2, D4, I2>>,
  <<I2, D2, I2, D2>>, <<I2, D2, I2, I2>>, <<I2, D2, I4>>,     <<I2, I2, D4>>,
  <<I2, I2, D2, I2>>, <<I2, I2, I2, D2>>, <<I2, I2, I2, I2>>, <<I2, I2, I4>>,
  <<I4, D4>>,         <<I4, D2, I2>>,     <<I4, I2, D2>>,     <<I4, I2, I2>>,
  <<I4, I4>>,         <<I8>> >>

IdxBits(size) == CASE size = 2 -> I2Bits [] size = 4 -> I4Bits [] size = 8 -> I8Bits
(* Number of bytes a ring buffer of `size`-byte entries spans *)
FifoSize(size) == size * 2^IdxBits(size)
ActBits(a) == IF a[1] = "D" THEN 8 * a[2] ELSE IdxBits(a[2])
RECURSIVE SumBits(_, _)
SumBits(t, i) == IF i > Len(t) THEN 0 ELSE ActBits(t[i]) + SumBits(t, i + 1)
TemplateBits(t) == OpBits + SumBits(Template[t], 1)

HasIndex(t) == \E i \in 1..Len(t) : t[i][1] = "I"

(* Every template produces exactly one 8-byte block *)
RECURSIVE SumSize(_, _)
SumSize(t, i) == IF i > Len(t) THEN 0 ELSE t[i][2] + SumSize(t, i + 1)
ASSUME \A t \in 1..NumTemplates : SumSize(Template[t], 1) = 8

-----------------------------------------------------------------------------
(* The ring-buffer rule.  `total` is the number of output bytes available  *)
(* for reference (a multiple of 8), `idx` the argument and `size` the entry*)
(* size.  The ring is not a sliding window: slot idx denotes the most      *)
(* recent aligned position congruent to idx*size modulo the ring's span.   *)
(* The result is the byte offset in the output (possibly past the end, in  *)
(* which case the reference is invalid).                                   *)
Resolve(total, idx, size) ==
  LET fsize == FifoSize(size)
      off   == idx * size
  IN IF total > fsize
       THEN LET section == (total \div fsize) * fsize
                pos     == total - section
            IN IF off >= pos THEN off + section - fsize ELSE off + section
       ELSE off
ValidRef(total, idx, size) == Resolve(total, idx, size) + size <= total

(* Bytes of the output that an index argument may refer to: only whole     *)
(* 8-byte blocks that have been completed.                                 *)
Referable(len) == (len \div 8) * 8

-----------------------------------------------------------------------------
(* Reading bits *)
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384,
          32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304,
          8388608, 16777216>>
P2(n) == Pow2[n + 1]
ByteOr0(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
(* n <= 16 bits at bit position pos (0-based) of byte sequence s *)
GetBits(s, pos, n) ==
  LET i == pos \div 8 + 1
      b == pos % 8
      w == ByteOr0(s, i) * 65536 + ByteOr0(s, i + 1) * 256 + ByteOr0(s, i + 2)
  IN (w \div P2(24 - b - n)) % P2(n)
Avail(s, pos, n) == pos + n <= 8 * Len(s)

(* k whole bytes at bit position pos *)
GetBytes(s, pos, k) == [i \in 1..k |-> GetBits(s, pos + 8 * (i - 1), 8)]

-----------------------------------------------------------------------------
(* CRC-32 (polynomial 0x04C11DB7, most significant bit first, zero initial *)
(* value, no final inversion), as <<high half, low half>>.                 *)
PolyHi == 1217    \* 0x04C1
PolyLo == 7607    \* 0x1DB7
RECURSIVE CrcShift(_, _, _)
CrcShift(hi, lo, n) ==
  IF n = 0 THEN <<hi, lo>>
  ELSE LET h2 == ((hi * 2) % 65536) + lo \div 32768
           l2 == (lo * 2) % 65536
       IN IF hi >= 32768
            THEN CrcShift(h2 ^^ PolyHi, l2 ^^ PolyLo, n - 1)
            ELSE CrcShift(h2, l2, n - 1)
(* the table of byte steps, as literals because TLC evaluates those once   *)
CrcHi == <<
  0, 1217, 2434, 3395, 4868, 6085, 6790, 7751, 9736, 8905, 12170, 11083,
  13580, 12749, 15502, 14415, 19473, 18640, 17811, 16722, 24341, 23508,
  22167, 21078, 27161, 28376, 25499, 26458, 31005, 32220, 28831, 29790,
  38947, 40162, 37281, 38240, 35623, 36838, 33445, 34404, 48683, 47850,
  47017, 45928, 44335, 43502, 42157, 41068, 54322, 53491, 56752, 55665,
  50998, 50167, 52916, 51829, 62010, 63227, 64440, 65401, 57662, 58879,
  59580, 60541, 13446, 12359, 15620, 14789, 10114, 9027, 11776, 10945,
  4750, 5711, 6924, 8141, 394, 1355, 2056, 3273, 30871, 31830, 28949,
  30164, 27539, 28498, 25105, 26320, 24223, 23134, 22301, 21468, 19867,
  18778, 17433, 16600, 44197, 43108, 42279, 41446, 49057, 47968, 46627,
  45794, 35501, 36460, 33583, 34798, 39337, 40296, 36907, 38122, 57524,
  58485, 59702, 60919, 62384, 63345, 64050, 65267, 50876, 49789, 53054,
  52223, 54712, 53625, 56378, 55547, 26892, 28109, 24718, 25679, 31240,
  32457, 29578, 30539, 20228, 19397, 18054, 16967, 23552, 22721, 21890,
  20803, 9501, 8668, 11423, 10334, 13849, 13016, 16283, 15194, 789, 2004,
  2711, 3670, 4113, 5328, 6547, 7506, 61743, 62958, 63661, 64620, 57899,
  59114, 60329, 61288, 55079, 54246, 56997, 55908, 50211, 49378, 52641,
  51552, 48446, 47615, 46268, 45181, 44602, 43771, 42936, 41849, 39734,
  40951, 37556, 38517, 34866, 36083, 33200, 34161, 23946, 22859, 21512,
  20681, 20110, 19023, 18188, 17357, 31618, 32579, 29184, 30401, 26758,
  27719, 24836, 26053, 4507, 5466, 6169, 7384, 671, 1630, 2845, 4060,
  14227, 13138, 15889, 15056, 9367, 8278, 11541, 10708, 50601, 49512,
  52267, 51434, 54957, 53868, 57135, 56302, 58273, 59232, 59939, 61154,
  61605, 62564, 63783, 64998, 35256, 36217, 32826, 34043, 39612, 40573,
  37694, 38911, 44976, 43889, 42546, 41715, 48308, 47221, 46390, 45559 >>
CrcLo == <<
  0, 7607, 15214, 9945, 30428, 27499, 19890, 20485, 60856, 61455, 54998,
  52065, 39780, 34515, 40970, 48573, 56176, 50887, 57374, 64937, 44460,
  45083, 38594, 35701, 14024, 11135, 3494, 4113, 16404, 23971, 31610,
  26317, 46816, 43863, 36238, 36921, 49212, 56715, 64338, 59109, 23384,
  18159, 24630, 32129, 11652, 12339, 5866, 2909, 28048, 28711, 22270,
  19273, 6988, 1787, 8226, 15765, 32808, 40351, 47942, 42737, 63220,
  60227, 52634, 53293, 28791, 28096, 19225, 22190, 1707, 6940, 15813,
  8306, 40399, 32888, 42657, 47894, 60179, 63140, 53373, 52682, 43783,
  46768, 36969, 36318, 56795, 49260, 59061, 64258, 18111, 23304, 32209,
  24678, 12387, 11732, 2829, 5818, 50839, 56096, 65017, 57422, 45131,
  44540, 35621, 38546, 11055, 13976, 4161, 3574, 24051, 16452, 26269,
  31530, 7655, 80, 9865, 15166, 27451, 30348, 20565, 19938, 61535, 60904,
  52017, 54918, 34435, 39732, 48621, 41050, 57582, 64857, 56192, 50743,
  38450, 35717, 44380, 45291, 3414, 4321, 13880, 11151, 31626, 26173,
  16612, 23891, 15262, 9769, 240, 7495, 19778, 20725, 30252, 27547, 54822,
  52113, 60744, 61695, 41210, 48461, 39828, 34339, 22030, 19385, 28000,
  28887, 8402, 15717, 7100, 1547, 48054, 42497, 32984, 40303, 52586,
  53469, 62980, 60339, 36222, 37065, 46608, 43943, 64418, 58901, 49356,
  56699, 24774, 32113, 23464, 17951, 5658, 2989, 11636, 12483, 37017,
  36142, 44023, 46656, 58949, 64498, 56619, 49308, 32033, 24726, 17999,
  23544, 3069, 5706, 12435, 11556, 19433, 22110, 28807, 27952, 15669,
  8322, 1627, 7148, 42577, 48102, 40255, 32904, 53389, 52538, 60387,
  63060, 9849, 15310, 7447, 160, 20645, 19730, 27595, 30332, 52161, 54902,
  61615, 60696, 48413, 41130, 34419, 39876, 64777, 57534, 50791, 56272,
  35797, 38498, 45243, 44300, 4273, 3334, 11231, 13928, 26221, 31706,
  23811, 16564 >>
ASSUME \A b \in 0..255 : <<CrcHi[b + 1], CrcLo[b + 1]>> = CrcShift(b * 256, 0, 8)
CrcStep(c, byte) ==
  LET i == ((c[1] \div 256) ^^ byte) + 1
  IN << ((c[1] % 256) * 256 + c[2] \div 256) ^^ CrcHi[i], ((c[2] % 256) * 256) ^^ CrcLo[i] >>
CrcFrom(c, bytes) == FoldLeft(CrcStep, c, bytes)
Crc(bytes) == CrcFrom(<<0, 0>>, bytes)
CrcBits == 32

-----------------------------------------------------------------------------
(* The decoder: one step consumes one operation.                           *)
(*   pos   bit position                                                    *)
(*   len   number of bytes produced so far                                 *)
(*   win   the last bytes produced (all that can still be referred to)     *)
(*   crc   checksum of the bytes produced                                  *)
(*   st    "run", "ok", the reason why the stream is malformed, or "unspec"*)
(*         (the format assigns no meaning to it)                           *)
(*   hw    no software-only operation has been used                        *)
(*   emit  the bytes produced by the last operation                        *)
(*   op    the last operation code, bits: its number of bits               *)
MaxFifo == IF FifoSize(8) >= FifoSize(4) THEN FifoSize(8) ELSE FifoSize(4)
ASSUME FifoSize(2) <= MaxFifo
WinMax == MaxFifo + 8
DecInit == [pos |-> 0, len |-> 0, win |-> <<>>, crc |-> <<0, 0>>, st |-> "run",
            hw |-> TRUE, emit |-> <<>>, op |-> 0, bits |-> 0]

Bad(d, why) == [d EXCEPT !.st = why, !.emit = <<>>]
Tail842(w) == IF Len(w) > WinMax THEN SubSeq(w, Len(w) - WinMax + 1, Len(w)) ELSE w
(* n bytes from absolute output offset off *)
Past(d, off, n) == LET b == off - (d.len - Len(d.win)) IN SubSeq(d.win, b + 1, b + n)
Emit(d, op, nbits, bytes) ==
  [d EXCEPT !.pos = @ + nbits, !.len = @ + Len(bytes), !.win = Tail842(@ \o bytes),
            !.crc = CrcFrom(@, bytes), !.emit = bytes, !.op = op, !.bits = nbits]

(* run the actions t[i..] of a template; a.acc is the block built so far.  *)
(* a.ok = FALSE on an invalid reference.  All arguments are available.     *)
RECURSIVE Actions(_, _, _, _, _, _)
Actions(s, t, i, a, d, total) ==
  IF i > Len(t) THEN a
  ELSE LET act == t[i] IN
    IF act[1] = "D"
      THEN Actions(s, t, i + 1,
             [a EXCEPT !.pos = @ + 8 * act[2],
                       !.acc = @ \o GetBytes(s, a.pos, act[2])], d, total)
      ELSE LET n   == IdxBits(act[2])
               idx == GetBits(s, a.pos, n)
               off == Resolve(total, idx, act[2])
           IN IF off + act[2] > total
                THEN [a EXCEPT !.ok = FALSE]
                ELSE Actions(s, t, i + 1,
                       [a EXCEPT !.pos = @ + n, !.acc = @ \o Past(d, off, act[2])],
                       d, total)

DecOp(s, d) ==
  IF ~Avail(s, d.pos, OpBits) THEN Bad(d, "truncated")
  ELSE LET op == GetBits(s, d.pos, OpBits)
           p  == d.pos + OpBits
       IN
    IF op < NumTemplates THEN
      IF ~Avail(s, d.pos, TemplateBits(op + 1)) THEN Bad(d, "truncated")
      \* what an index denotes once a short operation has left the output
      \* unaligned is not defined: short data ends a stream
      ELSE IF d.len % 8 # 0 /\ HasIndex(Template[op + 1]) THEN Bad(d, "unspec")
      ELSE LET a == Actions(s, Template[op + 1], 1,
                            [ok |-> TRUE, pos |-> p, acc |-> <<>>], d, Referable(d.len))
           IN IF ~a.ok THEN Bad(d, "badindex")
              ELSE Emit(d, op, TemplateBits(op + 1), a.acc)
    ELSE CASE op = OpRepeat ->
           IF ~Avail(s, p, RepeatBits) THEN Bad(d, "truncated")
           ELSE IF d.len < 8 THEN Bad(d, "norepeat")
           ELSE LET k    == GetBits(s, p, RepeatBits) + 1
                    last == Past(d, d.len - 8, 8)
                IN Emit(d, op, OpBits + RepeatBits,
                        [i \in 1..(8 * k) |-> last[((i - 1) % 8) + 1]])
      [] op = OpZeros ->
           Emit(d, op, OpBits, <<0, 0, 0, 0, 0, 0, 0, 0>>)
      [] op = OpShort ->
           IF ~Avail(s, p, ShortBits) THEN Bad(d, "truncated")
           ELSE LET k == GetBits(s, p, ShortBits) IN
                IF k = 0 THEN Bad(d, "badshort")
                ELSE IF ~Avail(s, p + ShortBits, 8 * k) THEN Bad(d, "truncated")
                ELSE [Emit(d, op, OpBits + ShortBits + 8 * k, GetBytes(s, p + ShortBits, k))
                        EXCEPT !.hw = FALSE]
      [] op = OpEnd ->
           IF ~Avail(s, p, CrcBits) THEN Bad(d, "truncated")
           ELSE LET c == <<GetBits(s, p, 16), GetBits(s, p + 16, 16)>>
                IN [d EXCEPT !.pos = p + CrcBits, !.emit = <<>>, !.op = op,
                             !.bits = OpBits + CrcBits,
                             !.st = IF c = d.crc THEN "ok" ELSE "badcrc"]
      [] OTHER -> Bad(d, "badop")

RECURSIVE Decode(_, _)
Decode(s, d) == IF d.st # "run" THEN d ELSE Decode(s, DecOp(s, d))
=============================================================================
