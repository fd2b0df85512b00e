------------------------------ MODULE Construct ------------------------------
(***************************************************************************)
(* Construction of a stream with N threads where any of them may turn out   *)
(* to be impossible to create: the threads that exist already may be        *)
(* anywhere on their way to waiting for an operation, are told to quit, and *)
(* have all ended when the exception reaches the user.                      *)
(***************************************************************************)
EXTENDS CompMonitor, Sequences
CONSTANT N
VARIABLES pc,     \* the user: "create", "quit", "notify", "join", "threw", "made"
          th,     \* threads: "none", "begin", "check", "decided", "wait", "end"
          quit, ready, m
vars == <<pc, th, quit, ready, m>>
Created == Cardinality({t \in 1..N : th[t] # "none"})
Init == pc = "create" /\ th = [t \in 1..N |-> "none"] /\ quit = FALSE /\ ready = 0 /\ m = M0(N)
Create == /\ pc = "create"
          /\ \/ /\ Created < N /\ th' = [th EXCEPT ![Created + 1] = "begin"] /\ UNCHANGED pc
             \/ /\ Created < N /\ pc' = "quit" /\ UNCHANGED th
             \/ /\ Created = N /\ pc' = "made" /\ UNCHANGED th
          /\ UNCHANGED <<quit, ready, m>>
(* the mutex is held from the decision to wait until the thread waits *)
Locked == \E t \in 1..N : th[t] = "check"
Quit == pc = "quit" /\ ~Locked /\ quit' = TRUE /\ pc' = "join"
        /\ th' = [t \in 1..N |-> IF th[t] = "wait" THEN "begun" ELSE th[t]] /\ UNCHANGED <<ready, m>>
Join == /\ pc = "join" /\ \A t \in 1..N : th[t] \in {"none", "end"} /\ pc' = "threw"
        /\ m' = Step(m, <<"refused", 0, 1, Created, 0>>) /\ UNCHANGED <<th, quit, ready>>
Thread(t) == \/ th[t] = "begin" /\ ready' = ready + 1 /\ th' = [th EXCEPT ![t] = "begun"] /\ UNCHANGED <<pc, quit, m>>
             \/ th[t] = "begun" /\ ~Locked /\ th' = [th EXCEPT ![t] = "check"] /\ UNCHANGED <<pc, quit, ready, m>>
             \/ th[t] = "check" /\ IF quit THEN th' = [th EXCEPT ![t] = "end"] /\ m' = Step(m, <<"exit", t, 0, 0, 0>>) /\ UNCHANGED <<pc, quit, ready>>
                                   ELSE th' = [th EXCEPT ![t] = "wait"] /\ UNCHANGED <<pc, quit, ready, m>>
             \/ th[t] = "wait" /\ th' = [th EXCEPT ![t] = "begun"] /\ UNCHANGED <<pc, quit, ready, m>>     \* woken for no reason
Next == Create \/ Quit \/ Join \/ \E t \in 1..N : Thread(t)
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ WF_vars(Create) /\ SF_vars(Quit) /\ WF_vars(Join)
            /\ \A t \in 1..N : SF_vars(th[t] = "begun" /\ Thread(t)) /\ WF_vars(th[t] \in {"begin", "check"} /\ Thread(t))
InvEnds == Terminates(m) /\ (pc = "threw" => m.exits = 1..Created)
Ends == <>(pc \in {"threw", "made"})
=============================================================================
