------------------------------ MODULE LRUImpl ------------------------------
(* The representation used by util/cache.go - a map and a doubly linked list with two  *)
(* sentinels - refines LRU: the commuting square is checked in every reachable state.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Keys, Values, Cap,
          Variant   \* "code", or a wrong variant that TLC has to refute:
                    \* "stale" (put of a known key keeps the old value), "nomove" (a hit does not
                    \* count as use), "evictNewest", "leak" (the victim stays in the map)
VARIABLE c          \* [nodes : node id -> [key, val, next, prev], m : key -> node id]
HEAD == 0
TAIL == 1
NIL == 99
Empty == [nodes |-> (HEAD :> [key |-> "", val |-> 0, next |-> TAIL, prev |-> NIL]) @@
                    (TAIL :> [key |-> "", val |-> 0, next |-> NIL, prev |-> HEAD]),
          m |-> << >>]
Unlink(ns, n) == LET p == ns[n].prev
                     x == ns[n].next
                     a == [ns EXCEPT ![p].next = x]
                 IN [a EXCEPT ![x].prev = p]
LinkHead(ns, n) == LET h == ns[HEAD].next
                       a == [ns EXCEPT ![HEAD].next = n]
                       b == [a EXCEPT ![h].prev = n]
                   IN [b EXCEPT ![n].next = h, ![n].prev = HEAD]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
GetI(s, k) == IF k \in DOMAIN s.m /\ Variant # "nomove"
              THEN [s EXCEPT !.nodes = LinkHead(Unlink(s.nodes, s.m[k]), s.m[k])] ELSE s
Victim(ns) == IF Variant = "evictNewest" THEN ns[HEAD].next ELSE ns[TAIL].prev
PutI(s, k, v) ==
  IF k \in DOMAIN s.m
  THEN LET n == s.m[k]
           a == Unlink(s.nodes, n)
           b == IF Variant = "stale" THEN a ELSE [a EXCEPT ![n].val = v]
       IN [s EXCEPT !.nodes = LinkHead(b, n)]
  ELSE LET full == Cardinality(DOMAIN s.m) >= Cap
           t == Victim(s.nodes)
           a == IF full THEN (IF Variant = "leak" THEN Unlink(s.nodes, t) ELSE Drop(Unlink(s.nodes, t), t)) ELSE s.nodes
           mm == IF full /\ Variant # "leak" THEN Drop(s.m, s.nodes[t].key) ELSE s.m
           id == CHOOSE i \in 2..(Cap + 6) : i \notin DOMAIN a  \* ids are reused: finite state space
           b == a @@ (id :> [key |-> k, val |-> v, next |-> NIL, prev |-> NIL])
       IN [nodes |-> LinkHead(b, id), m |-> mm @@ (k :> id)]
Init == c = Empty
Next == \E k \in Keys : c' = GetI(c, k) \/ \E v \in Values : c' = PutI(c, k, v)
Spec == Init /\ [][Next]_c
(* ---- refinement mapping: walk the list from the head ---- *)
RECURSIVE Walk(_, _, _)
Walk(ns, n, fuel) == IF n = TAIL \/ fuel = 0 THEN << >>
                     ELSE << <<ns[n].key, ns[n].val>> >> \o Walk(ns, ns[n].next, fuel - 1)
Abs(s) == [cap |-> Cap, q |-> Walk(s.nodes, s.nodes[HEAD].next, Cap + 1)]
L == INSTANCE LRU
ReplyOK == \A k \in Keys : L!LruReply(Abs(c), [op |-> "get", k |-> k]) =
             IF k \in DOMAIN c.m THEN [v |-> c.nodes[c.m[k]].val, hit |-> TRUE] ELSE [v |-> 0, hit |-> FALSE]
Refines == \A k \in Keys : /\ Abs(GetI(c, k)) = L!Get(Abs(c), k)
                           /\ \A v \in Values : Abs(PutI(c, k, v)) = L!Put(Abs(c), k, v)
Consistent == /\ L!WellFormed(Abs(c))
              /\ {c.nodes[n].key : n \in DOMAIN c.nodes \ {HEAD, TAIL}} = DOMAIN c.m
              /\ Len(Abs(c).q) = Cardinality(DOMAIN c.m)
              /\ \A n \in DOMAIN c.nodes \ {TAIL} : c.nodes[c.nodes[n].next].prev = n
=============================================================================
