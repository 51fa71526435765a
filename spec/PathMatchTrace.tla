--------------------------- MODULE PathMatchTrace ---------------------------
(* code -> spec: recorded questions about path patterns *)
EXTENDS PathMatch, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ok
Wrong(args) == Len(args) # 2 \/ \E i \in 1..Len(args) : args[i].t # "str"
Nt(e) == IF e.fn = "helper" THEN e.nt ELSE Notation(e.fn)
Hits(e) == {i \in 1..Len(e.paths) : Matches(e.paths[i], e.pattern, Nt(e))}
RECURSIVE Reply(_)
Reply(e) ==
  CASE e.op = "together" -> [err |-> FALSE, results |-> [i \in 1..Len(e.asks) |-> Reply(e.asks[i])]]
    [] e.op = "match" -> [err |-> FALSE, hits |-> SetToSortSeq(Hits(e), <)]
    [] e.op = "ispattern" -> [err |-> FALSE, yes |-> IsPattern(e.text, Nt(e))]
    [] e.op = "call" -> [err |-> Wrong(e.args)]
TInit == l = 1 /\ ok = TRUE
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l] IN
            /\ ok' = IF e.op = "init" THEN "panic" \notin DOMAIN e.res ELSE e.res = Reply(e)
            /\ ok' \/ PrintT(<<"NONCONFORM", l, IF e.op = "init" THEN "a start" ELSE Reply(e)>>)
TSpec == TInit /\ [][TNext]_<<l, ok>>
Conforms == ok
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
Short == [l |-> l]
=============================================================================
