----------------------------- MODULE ClCacheRace -----------------------------
(***************************************************************************)
(* Several processes construct OpenCL decompressors at the same time and   *)
(* share the program cache.  Reading and writing the file takes more than  *)
(* one operation, between which the others go on, and any process can be   *)
(* killed at any point.                                                    *)
(*                                                                         *)
(* A file is a sequence of blocks: the first holds the configuration it is *)
(* for and the beginning of its program, the others the rest.  Paths and   *)
(* open files refer to inodes, so replacing the file at the path leaves    *)
(* those which have it open with what they opened.                         *)
(*                                                                         *)
(* Replace = TRUE   written elsewhere, then moved into place (the design)  *)
(* Replace = FALSE  written in place; what goes wrong then is what the     *)
(*                  histories "N" replayed by the check look for           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Procs, Cfgs, Blocks, Replace

Inodes == 1..(2 * Cardinality(Procs) + 1)
Hole == 0
VARIABLES path,     \* inode at the path of the cache, 0 for none
          content,  \* inode -> sequence of blocks (the configuration each was written for)
          pc, cfg, rfd, wfd, prog
vars == <<path, content, pc, cfg, rfd, wfd, prog>>

Init == /\ path = 0
        /\ content = [n \in Inodes |-> <<>>]
        /\ pc = [p \in Procs |-> "idle"]
        /\ cfg = [p \in Procs |-> CHOOSE c \in Cfgs : TRUE]
        /\ rfd = [p \in Procs |-> 0]
        /\ wfd = [p \in Procs |-> 0]
        /\ prog = [p \in Procs |-> <<>>]

Free(n) == /\ n # path
           /\ \A p \in Procs : rfd[p] # n /\ wfd[p] # n
(* what nobody refers to any more does not matter *)
View == <<path, [n \in Inodes |-> IF Free(n) THEN <<>> ELSE content[n]], pc, cfg, rfd, wfd, prog>>
Own(c) == [k \in 1..Blocks |-> c]

Start(p, c) == /\ pc[p] \in {"idle", "done"}
               /\ cfg' = [cfg EXCEPT ![p] = c]
               /\ prog' = [prog EXCEPT ![p] = <<>>]
               /\ pc' = [pc EXCEPT ![p] = "open"]
               /\ UNCHANGED <<path, content, rfd, wfd>>
Open(p) == /\ pc[p] = "open"
           /\ rfd' = [rfd EXCEPT ![p] = path]
           /\ pc' = [pc EXCEPT ![p] = IF path = 0 THEN "build" ELSE "read"]
           /\ UNCHANGED <<path, content, cfg, wfd, prog>>
(* the next block; the first must be for this configuration *)
Read(p) == /\ pc[p] = "read"
           /\ LET f == content[rfd[p]]
                  k == Len(prog[p]) + 1
              IN IF Len(f) < k \/ (k = 1 /\ f[1] # cfg[p])
                 THEN /\ pc' = [pc EXCEPT ![p] = "build"]
                      /\ prog' = [prog EXCEPT ![p] = <<>>]
                      /\ rfd' = [rfd EXCEPT ![p] = 0]
                 ELSE /\ prog' = [prog EXCEPT ![p] = Append(@, f[k])]
                      /\ pc' = [pc EXCEPT ![p] = IF k = Blocks THEN "done" ELSE "read"]
                      /\ rfd' = [rfd EXCEPT ![p] = IF k = Blocks THEN 0 ELSE @]
           /\ UNCHANGED <<path, content, cfg, wfd>>
Build(p) == /\ pc[p] = "build"
            /\ prog' = [prog EXCEPT ![p] = Own(cfg[p])]
            /\ pc' = [pc EXCEPT ![p] = "create"]
            /\ UNCHANGED <<path, content, cfg, rfd, wfd>>
Create(p) == /\ pc[p] = "create"
             /\ LET n == IF ~Replace /\ path # 0 THEN path ELSE CHOOSE i \in Inodes : Free(i)
                IN /\ content' = [content EXCEPT ![n] = <<>>]
                   /\ wfd' = [wfd EXCEPT ![p] = n]
                   /\ path' = IF Replace THEN path ELSE n
             /\ pc' = [pc EXCEPT ![p] = "w1"]
             /\ UNCHANGED <<cfg, rfd, prog>>
Put(f, k, c) == [i \in 1..(IF Len(f) < k THEN k ELSE Len(f)) |-> IF i = k THEN c ELSE IF i <= Len(f) THEN f[i] ELSE Hole]
ToStr(k) == <<"w1", "w2", "w3">>[k]
Write(p) == \E k \in 1..Blocks :
             /\ pc[p] = ToStr(k)
             /\ content' = [content EXCEPT ![wfd[p]] = Put(@, k, cfg[p])]
             /\ pc' = [pc EXCEPT ![p] = IF k < Blocks THEN ToStr(k + 1) ELSE IF Replace THEN "move" ELSE "done"]
             /\ wfd' = [wfd EXCEPT ![p] = IF k = Blocks /\ ~Replace THEN 0 ELSE @]
             /\ UNCHANGED <<path, cfg, rfd, prog>>
Move(p) == /\ pc[p] = "move"
           /\ path' = wfd[p]
           /\ wfd' = [wfd EXCEPT ![p] = 0]
           /\ pc' = [pc EXCEPT ![p] = "done"]
           /\ UNCHANGED <<content, cfg, rfd, prog>>
(* creating, writing or moving fails: the program is used anyway *)
Fails(p) == /\ pc[p] \in {"create", "w1", "w2", "w3", "move"}
            /\ wfd' = [wfd EXCEPT ![p] = 0]
            /\ pc' = [pc EXCEPT ![p] = "done"]
            /\ UNCHANGED <<path, content, cfg, rfd, prog>>
Killed(p) == /\ pc[p] \notin {"idle", "done"}
             /\ rfd' = [rfd EXCEPT ![p] = 0]
             /\ wfd' = [wfd EXCEPT ![p] = 0]
             /\ prog' = [prog EXCEPT ![p] = <<>>]
             /\ pc' = [pc EXCEPT ![p] = "idle"]
             /\ UNCHANGED <<path, content, cfg>>
Deleted == path # 0 /\ path' = 0 /\ UNCHANGED <<content, pc, cfg, rfd, wfd, prog>>
Step(p) == Open(p) \/ Read(p) \/ Build(p) \/ Create(p) \/ Write(p) \/ Move(p) \/ Fails(p)
Next == Deleted \/ \E p \in Procs : Step(p) \/ Killed(p) \/ \E c \in Cfgs : Start(p, c)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))
-----------------------------------------------------------------------------
(* what a process gets is the program for its configuration, whole *)
Correct == \A p \in Procs : pc[p] = "done" => prog[p] = Own(cfg[p])
(* at the path there is nothing, or something complete *)
Complete == path # 0 => \E c \in Cfgs : content[path] = Own(c)
(* waiting for nobody: whoever starts gets there, unless killed *)
Done == \A p \in Procs : (pc[p] = "open") ~> (pc[p] \in {"done", "idle"})
=============================================================================
