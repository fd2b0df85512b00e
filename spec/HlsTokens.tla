----------------------------- MODULE HlsTokens -----------------------------
(***************************************************************************)
(* What the tokens of the high-level-synthesis tokenizer are: one for every *)
(* operation of the bit stream, holding the operation and its parameters,   *)
(* at the left of a word of TokenBits bits, and one for the end.            *)
(***************************************************************************)
EXTENDS Format842
WordBits  == 128       \* the stream arrives in words of this many bits
TokenBits == 69        \* the largest operation: 5 + 64
Known == (0..25) \cup {OpRepeat, OpZeros, OpEnd}
(* bits of the operation together with its parameters *)
OperBits(op) == CASE op < NumTemplates -> TemplateBits(op + 1)
                  [] op = OpRepeat     -> OpBits + RepeatBits
                  [] OTHER             -> OpBits
=============================================================================
