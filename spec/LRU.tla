-------------------------------- MODULE LRU --------------------------------
(* The LRU cache of util/cache.go as its callers see it.                    *)
(*                                                                          *)
(* State: a record [cap, q]; q is the sequence of <<key, value>> pairs,     *)
(* most recently used first.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

LruInit(e) == [cap |-> e.cap, q |-> <<>>]

HasKey(q, k) == \E i \in 1..Len(q) : q[i][1] = k
Pos(q, k)    == CHOOSE i \in 1..Len(q) : q[i][1] = k
Without(q, k) == SelectSeq(q, LAMBDA x : x[1] # k)
Cut(q, n)    == SubSeq(q, 1, IF Len(q) < n THEN Len(q) ELSE n)

(* ---- actions ---- *)
Put(s, k, v) == [s EXCEPT !.q = Cut(<< <<k, v>> >> \o Without(s.q, k), s.cap)]
Get(s, k) == IF HasKey(s.q, k)
             THEN [s EXCEPT !.q = << s.q[Pos(s.q, k)] >> \o Without(s.q, k)]
             ELSE s

(* ---- step and reply of an event ---- *)
LruStep(s, e) == CASE e.op = "put" -> Put(s, e.k, e.v)
                   [] e.op = "get" -> Get(s, e.k)

LruReply(s, e) == CASE e.op = "put" -> [v |-> 0, hit |-> FALSE]
                    [] e.op = "get" -> IF HasKey(s.q, e.k)
                                       THEN [v |-> s.q[Pos(s.q, e.k)][2], hit |-> TRUE]
                                       ELSE [v |-> 0, hit |-> FALSE]

(* ---- properties of the design ---- *)
WellFormed(s) == /\ Len(s.q) <= s.cap
                 /\ \A i, j \in 1..Len(s.q) : s.q[i][1] = s.q[j][1] => i = j
=============================================================================
