------------------------------ MODULE LRUSync ------------------------------
(* Why Get of the synchronised cache needs the exclusive lock: Get moves the node to the   *)
(* head of the list. Each pointer assignment of remove/add is one step; Lock = "exclusive"  *)
(* allows one thread at a time, "shared" lets readers overlap (TLC finds the broken list).  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, N, Lock, Gets
VARIABLES next, prev, pc, tgt, hn, left
vars == <<next, prev, pc, tgt, hn, left>>
Nodes == 0..(N + 1)      \* 0 = head, N+1 = tail
Init == /\ next = [i \in Nodes |-> IF i <= N THEN i + 1 ELSE i]
        /\ prev = [i \in Nodes |-> IF i > 0 THEN i - 1 ELSE 0]
        /\ pc = [t \in Threads |-> 0] /\ tgt = [t \in Threads |-> 0]
        /\ hn = [t \in Threads |-> 0] /\ left = [t \in Threads |-> Gets]
Idle == \A t \in Threads : pc[t] = 0
Start(t) == /\ pc[t] = 0 /\ left[t] > 0
            /\ (Lock = "exclusive" => Idle)
            /\ \E n \in 1..N : tgt' = [tgt EXCEPT ![t] = n]
            /\ pc' = [pc EXCEPT ![t] = 1] /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ UNCHANGED <<next, prev, hn>>
Step(t) == LET n == tgt[t] IN
  \/ pc[t] = 1 /\ next' = [next EXCEPT ![prev[n]] = next[n]] /\ UNCHANGED <<prev, hn>>
  \/ pc[t] = 2 /\ prev' = [prev EXCEPT ![next[n]] = prev[n]] /\ UNCHANGED <<next, hn>>
  \/ pc[t] = 3 /\ hn' = [hn EXCEPT ![t] = next[0]] /\ UNCHANGED <<next, prev>>
  \/ pc[t] = 4 /\ next' = [next EXCEPT ![0] = n] /\ UNCHANGED <<prev, hn>>
  \/ pc[t] = 5 /\ prev' = [prev EXCEPT ![hn[t]] = n] /\ UNCHANGED <<next, hn>>
  \/ pc[t] = 6 /\ next' = [next EXCEPT ![n] = hn[t]] /\ UNCHANGED <<prev, hn>>
  \/ pc[t] = 7 /\ prev' = [prev EXCEPT ![n] = 0] /\ UNCHANGED <<next, hn>>
Advance(t) == /\ pc[t] > 0 /\ Step(t)
              /\ pc' = [pc EXCEPT ![t] = IF @ = 7 THEN 0 ELSE @ + 1]
              /\ UNCHANGED <<tgt, left>>
Next == \E t \in Threads : Start(t) \/ Advance(t)
Spec == Init /\ [][Next]_vars
RECURSIVE Walk(_, _)
Walk(n, fuel) == IF n = N + 1 \/ fuel = 0 THEN << >> ELSE << n >> \o Walk(next[n], fuel - 1)
ListOK == Idle => /\ Len(Walk(next[0], N + 2)) = N
                  /\ \A n \in 0..N : prev[next[n]] = n
=============================================================================
