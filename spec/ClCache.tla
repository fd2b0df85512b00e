------------------------------- MODULE ClCache -------------------------------
(***************************************************************************)
(* The cache of the compiled OpenCL program: one file, shared by everything*)
(* that constructs a decompressor, whatever its configuration.             *)
(*                                                                         *)
(* A configuration is <<chunk size, stride, format, device, source>>.  The *)
(* file is a sequence of fields; it can be missing, cut off after any of   *)
(* them, have any field destroyed, be inaccessible, and the process that   *)
(* writes it can be interrupted.  Whatever happens, constructing succeeds, *)
(* and the program obtained is the one for the configuration asked for.    *)
(*                                                                         *)
(* Here one construction follows another; ClCacheRace has several at once. *)
(*                                                                         *)
(*   Spec   the design, checked exhaustively over all histories            *)
(*   GSpec  generates histories, which are replayed into the real code     *)
(*   TSpec  the histories as recorded from the real code                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

CONSTANTS Cfgs, MaxLen, RecFile

(* a configuration, others that differ from it in one component, in two *)
GenCfgs == {<<1024,1024,0,0,0>>, <<512,1024,0,0,0>>, <<1024,2048,0,0,0>>, <<1024,1024,1,0,0>>,
            <<1024,1024,2,0,0>>, <<1024,1024,0,1,0>>, <<1024,1024,0,0,1>>, <<1024,1024,1,0,1>>, <<512,1024,0,1,0>>}
SmallCfgs == {<<1,1,0,0,0>>, <<2,1,0,0,0>>, <<1,2,0,0,0>>, <<1,1,1,0,0>>, <<1,1,0,1,0>>, <<1,1,0,0,1>>}

Fields == <<"chunk", "stride", "fmt", "hash", "ndev", "nlen", "name", "bsize", "bin">>
NF == Len(Fields)
Junk == <<-1>>
Absent == <<>>
VARIABLES file,   \* sequence of field values, possibly short; the last may be cut (Junk)
          built,  \* what the last construction yielded: [cfg, prog, ok]
          hist, rec
vars == <<file, built, hist, rec>>

Content(c) == <<<<c[1]>>, <<c[2]>>, <<c[3]>>, <<c[5]>>, <<1>>, <<1>>, <<c[4]>>, <<1>>, c>>
NoneYet == [cfg |-> <<>>, prog |-> <<>>, ok |-> TRUE]

(* what reading the file yields: a program, or nothing *)
Usable(f, c) == /\ Len(f) = NF
                /\ SubSeq(f, 1, 8) = SubSeq(Content(c), 1, 8)
                /\ f[9] # Junk      \* a binary that is not one is refused by OpenCL
(* the file after a writer stopped after k fields (and perhaps within one) *)
Cut(f, k, within) == IF within /\ k < Len(f) THEN Append(SubSeq(f, 1, k), Junk) ELSE SubSeq(f, 1, k)

Construct(c, readable, written) ==
  LET hit == readable /\ Usable(file, c) IN
  /\ built' = [cfg |-> c, prog |-> IF hit THEN file[NF] ELSE c, ok |-> TRUE]
  /\ file' = IF hit THEN file ELSE written
Writes(c) == {file}            \* cannot be opened for writing
             \cup {Content(c)}
             \cup {Cut(Content(c), k, w) : k \in 0..NF-1, w \in BOOLEAN}
Corrupt(k) == /\ k <= Len(file) /\ file' = [file EXCEPT ![k] = Junk]
Truncate(k, w) == /\ k <= Len(file) /\ file' = Cut(file, k, w)

Init == file = Absent /\ built = NoneYet /\ hist = <<>> /\ rec = 0
Next == \/ \E c \in Cfgs, r \in BOOLEAN : \E w \in Writes(c) : Construct(c, r, w) /\ UNCHANGED <<hist, rec>>
        \/ /\ \/ \E k \in 1..NF : Corrupt(k)
              \/ \E k \in 0..NF, w \in BOOLEAN : Truncate(k, w)
              \/ file' = Absent
              \/ file' = <<Junk>>
           /\ UNCHANGED <<built, hist, rec>>
Spec == Init /\ [][Next]_vars
Correct == built.ok /\ built.prog = built.cfg
-----------------------------------------------------------------------------
(* Histories *)
Act(op, c, w, r, arg) == [op |-> op, cfg |-> c, w |-> w, r |-> r, arg |-> arg]
Rnd(S) == {RandomElement(S)}
Permille == {0, 1, 7, 8, 20, 31, 39, 40, 47, 48, 60, 100, 150, 159, 160, 300, 500, 999} \cup {RandomElement(0..999)}
GConstruct == \E c \in Rnd(Cfgs), x \in Rnd(1..10), k \in Rnd(Permille), r \in Rnd(1..8) :
   hist' = Append(hist, Act("C", c, CASE x <= 7 -> -1 [] x = 8 -> -2 [] OTHER -> k, IF r = 1 THEN 1 ELSE 0, 0))
(* the same configuration, or one that was used before *)
GAgain == \E i \in Rnd(1..Len(hist)) : /\ hist[i].op = "C"
                                       /\ hist' = Append(hist, [hist[i] EXCEPT !.w = -1, !.r = 0])
GDamage == \E x \in Rnd(1..10), k \in Rnd(Permille), f \in Rnd(0..7), v \in Rnd(0..5), n \in Rnd({0, 1, 8, 24, 32, 33, 40, 64, 5000}) :
   hist' = Append(hist, CASE x = 1 -> Act("D", <<0,0,0,0,0>>, 0, 0, 0)
                          [] x \in 2..4 -> Act("T", <<0,0,0,0,0>>, k, 0, 0)
                          [] x \in 5..8 -> Act("Z", <<0,0,0,0,0>>, f, 0, v)
                          [] x = 9 -> Act("B", <<0,0,0,0,0>>, 0, 0, f % 2)
                          [] OTHER -> Act("J", <<0,0,0,0,0>>, n, 0, 0))
(* several at once: each next one is constructed by another process when the one before is about *)
(* to do its at-th operation on the file (ClCacheRace is about what may happen then)             *)
GNest == \E a \in Rnd(Cfgs), b \in Rnd(Cfgs), c \in Rnd(Cfgs), k \in Rnd(0..11), l \in Rnd(0..11), x \in Rnd(1..3), y \in Rnd(1..2),
            i \in Rnd({0} \cup {j \in 1..Len(hist) : hist[j].op = "C"}) :
   LET first == IF y = 1 /\ i > 0 THEN hist[i].cfg ELSE a IN
   hist' = Append(hist, [op |-> "N", cfgs |-> IF x = 1 THEN <<first, b, c>> ELSE <<first, b>>, at |-> IF x = 1 THEN <<k, l, 99>> ELSE <<k, 99>>])
GNext == \/ /\ Len(hist) < MaxLen
            /\ \E x \in Rnd(1..12) :
                 IF x > 10 THEN GNest
                 ELSE IF hist = <<>> \/ x <= 4 THEN GConstruct
                 ELSE IF x <= 7 /\ hist[Len(hist)].op = "C" THEN GDamage
                 ELSE IF x <= 9 /\ hist[1].op = "C" THEN (\E i \in Rnd({j \in 1..Len(hist) : hist[j].op = "C"}) :
                        hist' = Append(hist, [hist[i] EXCEPT !.w = -1, !.r = 0]))
                 ELSE GConstruct
            /\ UNCHANGED <<file, built, rec>>
         \/ /\ Len(hist) = MaxLen /\ rec = 0
            /\ PrintT("HIST " \o ToJson(hist))
            /\ rec' = 1 /\ UNCHANGED <<file, built, hist>>
GSpec == Init /\ [][GNext]_vars
-----------------------------------------------------------------------------
(* Recorded histories.  The model follows: it tracks what may be in the    *)
(* file, and judges every construction.                                    *)
Recs == ndJsonDeserialize(RecFile)
R == Recs[rec]
TInit == /\ rec \in 1..Len(Recs) /\ file = Absent /\ built = NoneYet /\ hist = 0
Step(i) == R.steps[i]
TNext == /\ hist < Len(R.steps)
         /\ hist' = hist + 1
         /\ LET s == Step(hist + 1) IN
            IF s.act = "C"
            THEN /\ built' = [cfg |-> s.base, prog |-> s.res, ok |-> s.ok = 1]
                 /\ file' = IF s.src > 0 /\ s.w = -1 THEN Content(s.cfg)
                            ELSE IF s.src > 0 /\ s.w >= 0 THEN <<Junk>> ELSE file
            ELSE /\ built' = NoneYet
                 /\ file' = IF s.act = "D" THEN Absent ELSE <<Junk>>
         /\ UNCHANGED rec
TSpec == TInit /\ [][TNext]_vars
TShown == [rec |-> rec, id |-> R.id, step |-> hist, built |-> built]
Cur == Step(hist)
IsC == hist > 0 /\ Cur.act = "C"
(* construction succeeds, whatever the file is *)
InvSucceeds == IsC => built.ok
(* the results are those without a cache *)
InvResult == IsC => (built.prog = built.cfg /\ built.cfg > 0)
(* no program is ever made from what another configuration left *)
InvOwn == IsC => Cur.own # 2
InvNoCrash == R.fault = 0
=============================================================================
