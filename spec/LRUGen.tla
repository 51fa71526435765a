------------------------------- MODULE LRUGen -------------------------------
(* spec -> code: every transition of the cache with small constants, printed as the   *)
(* shortest behaviour that ends with it, together with all replies.                   *)
EXTENDS LRU, Json, SequencesExt
CONSTANTS Keys, Values, Caps, Sync
VARIABLES s, hist
Events == [op : {"put"}, k : Keys, v : Values] \cup [op : {"get"}, k : Keys]
GInit == \E c \in Caps : LET e == [op |-> "init", cap |-> c, sync |-> Sync] IN
            s = LruInit(e) /\ hist = << e >>
GNext == \E e \in Events :
            /\ s' = LruStep(s, e)
            /\ hist' = Append(hist, e @@ [res |-> LruReply(s, e)])
GSpec == GInit /\ [][GNext]_<<s, hist>>
GView == s
(* Each transition is printed twice, followed by a look at the state it leads to: the values *)
(* of all keys, and the order in which the keys are evicted when new ones arrive.             *)
RECURSIVE Run(_, _)
Run(st, es) == IF es = << >> THEN << >>
               ELSE << Head(es) @@ [res |-> LruReply(st, Head(es))] >> \o Run(LruStep(st, Head(es)), Tail(es))
KeySeq == SetToSeq(Keys)
ReadAll == [i \in 1..Len(KeySeq) |-> [op |-> "get", k |-> KeySeq[i]]]
NewKey(i) == "s9" \o ToString(i)
EvictAll(st) == FlattenSeq([i \in 1..Len(st.q) |->
                   LET victim == st.q[Len(st.q) + 1 - i][1]
                       fill == [j \in 1..(IF i = 1 THEN st.cap - Len(st.q) + 1 ELSE 1) |->
                                   [op |-> "put", k |-> NewKey(i * 10 + j), v |-> i]]
                   IN fill \o << [op |-> "get", k |-> victim] >>])
Emit == /\ PrintT(ToJson(hist' \o Run(s', ReadAll)))
        /\ PrintT(ToJson(hist' \o Run(s', EvictAll(s'))))
StateOK == WellFormed(s)
(* a key just put is found, whatever the state *)
PutThenGet == \A k \in Keys, v \in Values : LruReply(Put(s, k, v), [op |-> "get", k |-> k]) = [v |-> v, hit |-> TRUE]
(* a hit and a put of an existing key never evict *)
UseKeeps == \A k \in Keys : HasKey(s.q, k) => Len(Get(s, k).q) = Len(s.q) /\ \A v \in Values : Len(Put(s, k, v).q) = Len(s.q)
(* exactly the least recently used key is evicted *)
EvictsOldest == \A k \in Keys, v \in Values : ~HasKey(s.q, k) /\ Len(s.q) = s.cap =>
                   {x[1] : x \in {Put(s, k, v).q[i] : i \in 1..s.cap}} = ({s.q[i][1] : i \in 1..s.cap} \ {s.q[s.cap][1]}) \cup {k}
=============================================================================
