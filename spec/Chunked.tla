------------------------------- MODULE Chunked -------------------------------
(***************************************************************************)
(* Batch calls: one call that handles several chunks laid out at regular   *)
(* distances.                                                              *)
(*                                                                         *)
(* Model (MSpec): memory as cells; every chunk has a size or is skipped, a *)
(* capacity, and its own outcome.  Chunks are processed one after another, *)
(* in any order; the outcome has to be that of independent calls, wherever *)
(* chunks end up, with nothing else touched (MCorrect, MFrame).            *)
(* Trace (Spec): the records of real batch calls, one per initial state,   *)
(* with the outcome of single calls for the same chunks next to them.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

CONSTANTS N, Stride, RecFile

VARIABLES rec, cfg, out, res, todo
vars == <<rec, cfg, out, res, todo>>

ENOSPC == -28
-----------------------------------------------------------------------------
Untouched == 0
(* chunk i writes the value i in `need` cells; fails with no space, or for *)
(* another reason (having written one cell or none), or succeeds           *)
Cfg == [skip : BOOLEAN, need : 0..Stride, cap : 0..Stride, bad : BOOLEAN]
MInit == /\ rec = 0
         /\ cfg \in [0..N-1 -> {c \in Cfg : c.skip => (c.need = 0 /\ c.cap = Stride /\ ~c.bad)}]
         /\ out = [k \in 0..N*Stride-1 |-> Untouched]
         /\ res = [i \in 0..N-1 |-> [ret |-> 12345, olen |-> IF cfg[i].skip THEN 777 ELSE cfg[i].cap]]
         /\ todo = 0..N-1
Single(c) == IF c.bad THEN [ret |-> -22, olen |-> 0]
             ELSE IF c.need > c.cap THEN [ret |-> ENOSPC, olen |-> 0] ELSE [ret |-> 0, olen |-> c.need]
Fill(o, i, k) == [x \in DOMAIN o |-> IF x >= i * Stride /\ x < i * Stride + k THEN i + 1 ELSE o[x]]
MStep == \E i \in todo :
           /\ todo' = todo \ {i}
           /\ IF cfg[i].skip THEN UNCHANGED <<out, res>>
              ELSE /\ res' = [res EXCEPT ![i] = Single(cfg[i])]
                   /\ IF Single(cfg[i]).ret = 0 THEN out' = Fill(out, i, cfg[i].need)
                      ELSE \E k \in 0..cfg[i].cap : out' = Fill(out, i, k)
           /\ UNCHANGED <<rec, cfg>>
MSpec == MInit /\ [][MStep]_vars
MCorrect == todo = {} => \A i \in 0..N-1 :
   IF cfg[i].skip THEN res[i] = [ret |-> 12345, olen |-> 777]
   ELSE /\ res[i] = Single(cfg[i])
        /\ res[i].ret = 0 => \A k \in 0..cfg[i].need-1 : out[i * Stride + k] = i + 1
MFrame == \A i \in 0..N-1 : \A k \in 0..Stride-1 :
   out[i * Stride + k] # Untouched => /\ i \notin todo /\ ~cfg[i].skip /\ k < cfg[i].cap
                                      /\ out[i * Stride + k] = i + 1
-----------------------------------------------------------------------------
Recs == ndJsonDeserialize(RecFile)
R == Recs[rec]
Init == /\ rec \in 1..Len(Recs)
        /\ cfg = 0 /\ out = 0 /\ res = 0
        /\ todo = 1..Len(Recs[rec].chunks)
(* one chunk of the record at a time, in order *)
Cur == Len(R.chunks) - Cardinality(todo) + 1
Next == /\ todo # {} /\ todo' = todo \ {Cur} /\ UNCHANGED <<rec, cfg, out, res>>
Spec == Init /\ [][Next]_vars
Shown == [rec |-> rec, chunk |-> Cur, id |-> R.id]

Chunk == R.chunks[Cur]
(* every chunk has exactly the outcome of a call of its own *)
InvEach == todo # {} /\ Chunk.skip = 0 =>
             /\ Chunk.ret = Chunk.sret
             /\ Chunk.olen = Chunk.solen
             /\ Chunk.ret = 0 => (Chunk.idx = Chunk.sidx /\ Chunk.idx > 0)
             /\ Chunk.ret # 0 => Chunk.olen = 0
(* a skipped chunk is not touched at all *)
InvSkip == todo # {} /\ Chunk.skip = 1 => Chunk.ret = 12345 /\ Chunk.olen = Chunk.olen0
(* nothing outside the chunks' areas changed, nor did the inputs *)
InvFrame == R.wild = 0
(* failures of single chunks are reported with the chunks; the call itself *)
(* does not fail without any                                               *)
InvReturn == R.ret # 0 => \E i \in 1..Len(R.chunks) : R.chunks[i].skip = 0 /\ R.chunks[i].ret # 0
InvNoCrash == R.fault \notin {1, 2}
=============================================================================
