---------------------------- MODULE FileTrace ----------------------------
(* code -> spec: histories recorded from real enforcers with file adapters *)
EXTENDS File, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, ok
TInit == l = 1 /\ s = [w |-> 0] /\ ok = TRUE
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op = "init"
            THEN /\ s' = FileInit(e)
                 /\ ok' = ("panic" \notin DOMAIN e.res)
                 /\ ok' \/ PrintT(<<"NONCONFORM", l, "a history which starts">>)
            ELSE /\ s' = FileStep(s, e)
                 /\ ok' = FileConforms(s, e)
                 /\ ok' \/ PrintT(<<"NONCONFORM", l, FileExpected(s, e)>>)
TSpec == TInit /\ [][TNext]_<<l, s, ok>>
Conforms == ok
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
Short == [l |-> l]
=============================================================================
