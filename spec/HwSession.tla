------------------------------ MODULE HwSession ------------------------------
(***************************************************************************)
(* The design of the cryptodev back end: threads that make calls, each     *)
(* step of setting up and releasing a session being able to fail.          *)
(*   Spec   all interleavings of few threads and calls, small numbers      *)
(*   GSpec  generates programs with planned failures, replayed into the    *)
(*          real code                                                      *)
(***************************************************************************)
EXTENDS HwMonitor, Json, TLC
CONSTANTS N, MaxCalls, Few
Threads == 1..N
VARIABLES pc, calls, key, fd, ses, kept, next, err, hist, m
vars == <<pc, calls, key, fd, ses, kept, next, err, hist, m>>

Lens == {Zero, <<0, 0, 0, 1>>, Umax, <<0, 1, 0, 0>>, Skip}
Strides == {Zero, <<0, 0, 1, 0>>, Umax, <<0, 1, 0, 0>>}
Ptrs == {<<0, 0, 1, 0>>, <<0, 0, 1, 1>>}
CallSet ==
  {[k |-> "call", t |-> 0, f |-> f, n |-> 1, in |-> <<0, 0, 1, 0>>, is |-> Zero, il |-> <<a>>, out |-> p, os |-> Zero, ol |-> <<b>>, rets |-> <<0>>] :
      f \in {"c", "d"}, p \in Ptrs, a \in Lens, b \in {Zero, Umax, <<0, 1, 0, 0>>}}
  \cup
  {[k |-> "call", t |-> 0, f |-> "C", n |-> n, in |-> p, is |-> s, il |-> [i \in 1..n |-> IF i = 2 THEN a ELSE Zero], out |-> <<0, 0, 1, 0>>,
    os |-> <<0, 0, 0, 1>>, ol |-> [i \in 1..n |-> b], rets |-> [i \in 1..n |-> 7]] : n \in 0..3, p \in Ptrs, s \in Strides, a \in {<<0, 0, 0, 1>>, Skip}, b \in {Zero, <<0, 1, 0, 0>>}}
FewCalls == {c \in CallSet : c.f # "d" /\ c.in = <<0, 0, 1, 0>> /\ c.n \in {1, 2} /\ c.il[1] \in {Zero, Skip} /\ c.is \in {Zero, Umax} /\ c.ol[1] = Zero}
Mask == 1

Ev(k, t) == [k |-> k, t |-> t]
Say(e) == m' = Step(m, e)
Fail(t, what) == Say([k |-> "fail", t |-> t, what |-> what, e |-> 5]) /\ err' = [err EXCEPT ![t] = 5]
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Init == /\ pc = [t \in Threads |-> "idle"] /\ calls = [t \in Threads |-> 0] /\ key = "no" /\ fd = [t \in Threads |-> 0]
        /\ ses = [t \in Threads |-> 0] /\ kept = [t \in Threads |-> FALSE] /\ next = 1 /\ err = [t \in Threads |-> 0]
        /\ hist = <<>> /\ m = M0(Threads, FALSE)
Call(t) == /\ pc[t] = "idle" /\ calls[t] < MaxCalls
           /\ \E c \in (IF Few THEN FewCalls ELSE CallSet) : Say([c EXCEPT !.t = t])
           /\ calls' = [calls EXCEPT ![t] = @ + 1] /\ err' = [err EXCEPT ![t] = 0]
           /\ Goto(t, IF kept[t] THEN "send" ELSE "key") /\ UNCHANGED <<key, fd, ses, kept, next, hist>>
Key(t) == /\ pc[t] = "key"
          /\ \/ key = "no" /\ key' = "ok" /\ Goto(t, "alloc") /\ UNCHANGED <<m, err>>
             \/ key = "no" /\ key' = "bad" /\ Goto(t, "ret") /\ Say([k |-> "fail", t |-> t, what |-> "key", e |-> ENOMEM]) /\ err' = [err EXCEPT ![t] = ENOMEM]
             \/ key = "ok" /\ Goto(t, "alloc") /\ UNCHANGED <<key, m, err>>
             \/ key = "bad" /\ Goto(t, "ret") /\ err' = [err EXCEPT ![t] = ENOMEM] /\ UNCHANGED <<key, m>>
          /\ UNCHANGED <<calls, fd, ses, kept, next, hist>>
Same == UNCHANGED <<calls, key, kept, hist>>
Alloc(t) == /\ pc[t] = "alloc" /\ Same /\ UNCHANGED <<fd, ses, next>>
            /\ \/ Say(Ev("alloc", t)) /\ Goto(t, "open") /\ UNCHANGED err
               \/ Fail(t, "alloc") /\ Goto(t, "ret")
Open(t) == /\ pc[t] = "open" /\ Same /\ UNCHANGED ses
           /\ \/ Say([k |-> "open", t |-> t, fd |-> next]) /\ fd' = [fd EXCEPT ![t] = next] /\ next' = next + 1 /\ Goto(t, "setfd") /\ UNCHANGED err
              \/ Fail(t, "open") /\ Goto(t, "undo3") /\ UNCHANGED <<fd, next>>
SetFd(t) == /\ pc[t] = "setfd" /\ Same /\ UNCHANGED <<fd, ses, next>>
            /\ \/ Say([k |-> "setfd", t |-> t, fd |-> fd[t]]) /\ Goto(t, "sess") /\ UNCHANGED err
               \/ Fail(t, "setfd") /\ Goto(t, "undo2")
Sess(t) == /\ pc[t] = "sess" /\ Same /\ UNCHANGED fd
           /\ \/ Say([k |-> "sess", t |-> t, fd |-> fd[t], ses |-> next, alg |-> 1]) /\ ses' = [ses EXCEPT ![t] = next] /\ next' = next + 1
                 /\ Goto(t, "info") /\ UNCHANGED err
              \/ Fail(t, "sess") /\ Goto(t, "undo2") /\ UNCHANGED <<ses, next>>
Info(t) == /\ pc[t] = "info" /\ Same /\ UNCHANGED <<fd, ses, next>>
           /\ \/ Say([k |-> "info", t |-> t, fd |-> fd[t], ses |-> ses[t], mask |-> Mask]) /\ Goto(t, "keep") /\ UNCHANGED err
              \/ Fail(t, "info") /\ Goto(t, "undo1")
Keep(t) == /\ pc[t] = "keep" /\ UNCHANGED <<calls, key, hist, fd, ses, next>>
           /\ \/ Say(Ev("keep", t)) /\ kept' = [kept EXCEPT ![t] = TRUE] /\ Goto(t, "send") /\ UNCHANGED err
              \/ Fail(t, "keep") /\ Goto(t, "undo1") /\ UNCHANGED kept
Send(t) == LET c == m.th[t].call IN
           /\ pc[t] = "send" /\ Goto(t, "ret") /\ Same /\ UNCHANGED <<fd, ses, next>>
           /\ IF Acceptable(c, Mask)
              THEN /\ UNCHANGED err
                   /\ \E e \in {0, 5}, r \in {0, -28} :
                      Say([k |-> "crypt", t |-> t, fd |-> fd[t], ses |-> ses[t], e |-> e, rets |-> [i \in 1..c.n |-> r], ols |-> [i \in 1..c.n |-> Zero]]
                          @@ Wanted(c))
              ELSE err' = [err EXCEPT ![t] = -EINVAL] /\ UNCHANGED m
Undo(t) == /\ pc[t] \in {"undo1", "undo2", "undo3"} /\ Same /\ UNCHANGED <<err, next>>
           /\ CASE pc[t] = "undo1" -> Say([k |-> "fses", t |-> t, fd |-> fd[t], ses |-> ses[t]]) /\ ses' = [ses EXCEPT ![t] = 0] /\ Goto(t, "undo2") /\ UNCHANGED fd
                [] pc[t] = "undo2" -> Say([k |-> "close", t |-> t, fd |-> fd[t]]) /\ fd' = [fd EXCEPT ![t] = 0] /\ Goto(t, "undo3") /\ UNCHANGED ses
                [] OTHER -> Say(Ev("free", t)) /\ Goto(t, IF kept[t] THEN "exit" ELSE "ret") /\ UNCHANGED <<fd, ses>>
Ret(t) == LET h == m.th[t]  c == h.call IN
          /\ pc[t] = "ret" /\ Goto(t, "idle") /\ Same /\ UNCHANGED <<fd, ses, next, err>>
          /\ Say([k |-> "ret", t |-> t,
                  ret |-> IF err[t] # 0 THEN -err[t] ELSE IF h.dev.e # 0 THEN -h.dev.e ELSE IF Single(c) THEN h.dev.rets[1] ELSE 0,
                  rets |-> IF err[t] # 0 THEN c.rets ELSE h.dev.rets,
                  ols |-> IF err[t] # 0 \/ h.dev.e # 0 THEN c.ol ELSE h.dev.ols])
(* the thread ends *)
End(t) == /\ pc[t] = "idle" /\ Goto(t, IF kept[t] THEN "undo1" ELSE "exit") /\ UNCHANGED <<calls, key, fd, ses, kept, next, err, hist, m>>
Exit(t) == /\ pc[t] = "exit" /\ Goto(t, "gone") /\ Say(Ev("exit", t)) /\ Same /\ UNCHANGED <<fd, ses, next, err>>
Next == \E t \in Threads : Call(t) \/ Key(t) \/ Alloc(t) \/ Open(t) \/ SetFd(t) \/ Sess(t) \/ Info(t) \/ Keep(t) \/ Send(t) \/ Undo(t) \/ Ret(t) \/ End(t) \/ Exit(t)
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ \A t \in Threads : WF_vars(Call(t) \/ Key(t) \/ Alloc(t) \/ Open(t) \/ SetFd(t) \/ Sess(t) \/ Info(t) \/ Keep(t) \/ Send(t) \/ Undo(t) \/ Ret(t) \/ End(t) \/ Exit(t))
InvMonitor == m.bad = {}
(* nothing is left when all threads have ended *)
InvNothingLeft == (\A t \in Threads : pc[t] = "gone") => \A t \in Threads : Free(m.th[t])
Termination == <>(\A t \in Threads : pc[t] = "gone")
-----------------------------------------------------------------------------
(* Programs for the real code *)
Rnd(S) == {RandomElement(S)}
D(S) == RandomElement(S)
B == 65536
Some == {0, 1, 2, 3, 7, 8, 4095, 4096, 32767, 32768, B - 2, B - 1}
RndLen(x) == CASE x = 1 -> <<B-1, B-1, B-1, B-1>>
               [] x = 2 -> <<0, 0, B-1, B-1>>
               [] x = 3 -> <<0, 0, B-1, B-2>>
               [] x = 4 -> <<0, 1, 0, D(Some)>>
               [] x = 5 -> <<D({0, 1, B-1}), D(Some), D(Some), D(Some)>>
               [] x \in 6..8 -> <<0, 0, D(Some), D(Some)>>
               [] OTHER -> <<0, 0, D({0, 1}), D(Some)>>
Calm(x) == <<0, 0, D({0, 1, 2}), D(Some)>>
FailSteps == {"key", "alloc", "open", "setfd", "sess", "info", "keep", "crypt"}
GCall == \E t \in Rnd(1..N), f \in Rnd({"c", "d", "C", "D", "C", "D", "C", "D", "i", "a"}), n \in Rnd({0, 1, 2, 3, 15, 16, 17, 18, 4}), w \in Rnd(1..4), x \in Rnd(1..3),
            bad \in Rnd(1..8), al \in Rnd(1..6), b \in Rnd({1, 2}), cap \in Rnd({1, 2}), st \in Rnd(1..16) :
   LET k == IF f \in {"c", "d"} THEN 1 ELSE n  IN
   hist' = Append(hist,
     [op |-> "call", t |-> t, f |-> f, n |-> k,
      in |-> IF al = 1 THEN D({1, 2, 4, 8, 64, 4096, 32768}) ELSE 65536 * D(0..3),
      out |-> IF al = 2 THEN D({1, 2, 4, 8, 64, 4096, 32768}) ELSE 65536 * D(0..3),
      is |-> IF st = 1 THEN <<0, 0, D({4095, 4096, 4369, 8191, 21845, 32767}), D({0, B-1})>> ELSE IF st = 2 THEN RndLen(D(1..8)) ELSE Calm(0),
      os |-> IF st = 3 THEN <<0, 0, D({4095, 4096, 4369, 8191, 21845, 32767}), D({0, B-1})>> ELSE IF st = 4 THEN RndLen(D(1..8)) ELSE Calm(0),
      il |-> [i \in 1..k |-> IF bad = 1 /\ i = D(1..k) THEN RndLen(D(1..8)) ELSE IF b = 1 /\ D(1..3) = 1 /\ f \in {"C", "D"} THEN <<B-1, B-1, B-1, B-1>> ELSE Calm(0)],
      ol |-> [i \in 1..k |-> IF bad = 2 /\ i = D(1..k) THEN RndLen(D(1..8)) ELSE Calm(0)],
      fail |-> IF w = 1 THEN D(FailSteps) ELSE "-", e |-> D({1, 2, 5, 12, 13, 16, 22, 24, 110}), wait |-> IF x = 1 THEN 0 ELSE 1])
GEnd == \E t \in Rnd(1..N), w \in Rnd({"-", "-", "fses", "close"}) : hist' = Append(hist, [op |-> "exit", t |-> t, fail |-> w, e |-> D({5, 9})])
GNext == \/ /\ Len(hist) < MaxCalls /\ \E x \in Rnd(1..6) : IF x = 1 THEN GEnd ELSE GCall
            /\ UNCHANGED <<pc, calls, key, fd, ses, kept, next, err, m>>
         \/ /\ Len(hist) = MaxCalls /\ next = 1 /\ PrintT("HIST " \o ToJson(hist)) /\ next' = 2
            /\ UNCHANGED <<pc, calls, key, fd, ses, kept, err, hist, m>>
GSpec == Init /\ [][GNext]_vars
=============================================================================
