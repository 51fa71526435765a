------------------------------ MODULE LRUTrace ------------------------------
(* code -> spec: recorded histories of the real cache must be behaviours of LRU *)
EXTENDS LRU, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, ok
TInit == l = 1 /\ s = [cap |-> 0, q |-> <<>>] /\ ok = TRUE
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op = "init"
            THEN /\ s' = LruInit(e)
                 /\ ok' = ("panic" \notin DOMAIN e.res)
                 /\ ok' \/ PrintT(<<"NONCONFORM", l, "a history which starts">>)
            ELSE /\ s' = LruStep(s, e)
                 /\ ok' = (e.res = LruReply(s, e))
                 /\ ok' \/ PrintT(<<"NONCONFORM", l, LruReply(s, e)>>)
TSpec == TInit /\ [][TNext]_<<l, s, ok>>
Conforms == ok
StateOK == WellFormed(s)
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
Short == [l |-> l]
=============================================================================
