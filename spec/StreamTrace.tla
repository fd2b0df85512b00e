----------------------------- MODULE StreamTrace -----------------------------
(***************************************************************************)
(* Recorded executions of the real streams, barrier and latch, fed to the  *)
(* monitors event by event.  Contents of blocks and of the destination are *)
(* judged here.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, TLC
CONSTANT RecFile
CM == INSTANCE CompMonitor
DM == INSTANCE DecompMonitor
SM == INSTANCE SyncMonitor
Recs == ndJsonDeserialize(RecFile)
VARIABLES rec, i, m, aux
vars == <<rec, i, m, aux>>
R == Recs[rec]

(* a block handed over by the compression stream: <<offset, chunk contents, sizes, expected sizes, source ok>> *)
BlockGood(x) == /\ x[5] = 1
                /\ \A j \in 1..16 : x[2][j] = x[1] * 16 + j - 1 /\ x[3][j] = x[4][j]

(* the destination: per block the contents of its chunks, -2: untouched *)
Absent == -2
Untouched(d) == \A j \in 1..16 : d[j] = Absent
Restored(d, x) == d = x[2]
Partly(d, x) == \A j \in 1..16 : d[j] = x[2][j] \/ d[j] = Absent \/ (x[2][j] # Absent)
(* aux: block -> index into R.blocks of what was pushed in this operation *)
DestGood(mm, d) ==
  \A o \in 0..(Len(d) - 1) :
    LET y == d[o + 1] IN
    IF o \notin DOMAIN aux THEN Untouched(y)
    ELSE LET x == R.blocks[aux[o]] IN
         IF o \in mm.acc /\ ~mm.fail /\ ~mm.want THEN Restored(y, x)
         ELSE IF o \in mm.failblk THEN Partly(y, x)
         ELSE Restored(y, x) \/ Untouched(y)
Doned == {k \in 1..Len(R.ev) : R.ev[k][1] = "done"}
Starts(k) == Len(SelectSeq(SubSeq(R.ev, 1, k), LAMBDA e : e[1] = "start"))
(* nothing was written after completion *)
FinalGood(base) == \A k \in Doned : LET s == CHOOSE n \in 0..Len(R.ev) : n = Starts(k) IN R.dests[base + s] = R.dests[R.ev[k][4]]

Init == /\ rec \in 1..Len(Recs) /\ i = 0
        /\ m = CASE R.t = "C" -> CM!M0(R.n) [] R.t = "D" -> DM!M0(R.n) [] R.t = "B" -> SM!B0(R.n) [] R.t = "P" -> [bad |-> {}] [] OTHER -> SM!L0(R.ep)
        /\ aux = <<>>
Next == /\ i < Len(R.ev)
        /\ i' = i + 1
        /\ LET e == R.ev[i + 1] IN
           /\ m' = CASE R.t = "C" -> CM!Step(m, IF e[1] = "cb" /\ e[5] > 0
                                                THEN <<e[1], e[2], e[3], e[4], IF BlockGood(R.blocks[e[5]]) THEN 1 ELSE 0>> ELSE e)
                     [] R.t = "D" -> DM!Step(m, IF e[1] = "done" THEN <<e[1], e[2], e[3], IF DestGood(m, R.dests[e[4]]) THEN 1 ELSE 0, 0>>
                                                ELSE IF e[1] = "final" THEN <<e[1], e[2], e[3], IF FinalGood(e[3]) THEN 1 ELSE 0, 0>> ELSE e)
                     [] R.t = "B" -> SM!BStep(m, e)
                     [] R.t = "P" -> [bad |-> m.bad \cup (CASE e[1] = "pipe" -> CM!When(e[3] # 1, "failed") \cup CM!When(e[4] # 1, "different") \cup CM!When(e[5] # 1, "beyond")
                                                             [] e[1] = "stuck" -> {"stuck"} [] OTHER -> {})]
                     [] OTHER -> SM!LStep(m, e)
           /\ aux' = IF e[1] = "start" THEN <<>> ELSE IF e[1] = "push" THEN (e[3] :> e[4]) @@ aux ELSE aux
        /\ UNCHANGED rec
Spec == Init /\ [][Next]_vars
View == <<rec, i>>
Shown == [rec |-> rec, id |-> R.id, step |-> i, event |-> IF i > 0 THEN R.ev[i] ELSE <<>>, bad |-> m.bad]

InvC08 == R.t = "C" => CM!OnceThenDone(m)
InvC09 == R.t = "C" => CM!EpochOrder(m)
InvC10 == R.t = "D" => DM!RestoredInPlace(m)
InvC11 == (R.t = "C" => CM!FailuresReported(m)) /\ (R.t = "D" => DM!FailuresReported(m))
InvC12 == (R.t = "C" => CM!Terminates(m)) /\ (R.t = "D" => DM!Terminates(m))
InvC13 == (R.t = "B" => SM!BarrierOK(m)) /\ (R.t = "L" => SM!LatchOK(m))
(* both streams in a row, with the real implementations of 842: the destination is the source *)
InvPipe == R.t = "P" => m.bad = {}
(* streams do not affect one another: what another stream in the process did went as it had to *)
InvOthers == \A k \in 1..Len(R.ev) : R.ev[k][1] = "other" => R.ev[k][3] = 1
InvNoCrash == R.fault = 0
=============================================================================
