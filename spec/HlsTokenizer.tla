---------------------------- MODULE HlsTokenizer ----------------------------
(***************************************************************************)
(* The tokenizer as designed: a shift register of Buffer bits, refilled by  *)
(* one word whenever fewer than Low bits are left in it and words are left. *)
(*                                                                         *)
(* Checked exhaustively for every sequence of operations: the register is   *)
(* never overfull, an operation is never taken from bits that have not      *)
(* arrived, no bit is lost between words, and the tokenizer stops at the    *)
(* end marker or at the first operation that is not complete.               *)
(* GSpec writes the sequences of operations that are replayed into the real *)
(* code.                                                                    *)
(***************************************************************************)
EXTENDS HlsTokens, Json
CONSTANTS Buffer, Low, MaxWords, MaxOps
VARIABLES words,   \* words still to be read
          level,   \* bits in the register
          pos,     \* bits consumed
          total,   \* bits of the whole stream
          done, forced, hist
vars == <<words, level, pos, total, done, forced, hist>>

Init == \E n \in 1..MaxWords :
          /\ words = n - 1 /\ level = WordBits /\ total = n * WordBits
          /\ pos = 0 /\ done = FALSE /\ forced = FALSE /\ hist = <<>>

LastSeen == words = 0
Refilled == IF ~LastSeen /\ level < Low THEN level + WordBits ELSE level
Take(op) ==
  LET short == LastSeen /\ (level < OpBits \/ level < OperBits(op))
      end   == short \/ op = OpEnd
      n     == IF end THEN OpBits ELSE OperBits(op)
  IN /\ ~done
     /\ words' = (IF Refilled # level THEN words - 1 ELSE words)
     /\ level' = (IF short THEN 0 ELSE Refilled - n)
     /\ pos' = (IF short THEN pos + level ELSE pos + n)
     /\ done' = end /\ forced' = short
     /\ UNCHANGED <<total>>

Ops == Known
Next == \E op \in Ops : Take(op) /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ WF_vars(Next)

InvFits   == Refilled <= Buffer
InvThere  == (~done /\ ~LastSeen) => level >= TokenBits
InvNoLoss == ~done => pos + level + WordBits * words = total
InvEnd    == (done /\ ~forced) => pos <= total
(* a stream that ends without an end marker is consumed to its last complete operation *)
InvForced == forced => words = 0 /\ pos = total
Termination == <>done

(* the operations of a program; long runs of one length shift the boundary of the words through every place *)
GInit == words = 0 /\ level = 0 /\ total = 0 /\ pos = 0 /\ done = FALSE /\ forced = FALSE
         /\ \E n \in 0..MaxOps : \E run \in Known \ {OpEnd} : hist = <<n, run>>
GNext == /\ ~done
         /\ \/ /\ Len(hist) < hist[1] + 2
               /\ \E op \in (Known \ {OpEnd}) \cup {OpRepeat + 100, hist[2] + 100, 100} : hist' = Append(hist, op % 100)
               /\ UNCHANGED done
            \/ /\ Len(hist) = hist[1] + 2 /\ done' = TRUE /\ UNCHANGED hist
               /\ PrintT("HIST " \o ToJson([ops |-> SubSeq(hist, 3, Len(hist))]))
         /\ UNCHANGED <<words, level, pos, total, forced>>
GSpec == GInit /\ [][GNext]_vars
=============================================================================
