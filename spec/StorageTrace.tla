---------------------------- MODULE StorageTrace ----------------------------
(* code -> spec: histories recorded from real enforcers with recording adapters *)
EXTENDS Storage, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, ok
TInit == l = 1 /\ s = [w |-> 0] /\ ok = TRUE
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op = "init"
            THEN /\ s' = StorageInit(e)
                 /\ ok' = ("panic" \notin DOMAIN e.res)
                 /\ ok' \/ PrintT(<<"NONCONFORM", l, "a history which starts">>)
            ELSE /\ s' = StorageStep(s, e)
                 /\ ok' = StorageConforms(s, e)
                 /\ ok' \/ PrintT(<<"NONCONFORM", l, StorageExpected(s, e)>>)
TSpec == TInit /\ [][TNext]_<<l, s, ok>>
Conforms == ok
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
Short == [l |-> l]
=============================================================================
