----------------------------- MODULE RbacTrace -----------------------------
(* code -> spec: histories recorded from real role managers *)
EXTENDS RbacSteps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, ok
TInit == l = 1 /\ s = [m |-> NewManager("rm", 1)] /\ ok = TRUE
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op = "init"
            THEN /\ s' = RbacInit(e)
                 /\ ok' = ("panic" \notin DOMAIN e.res)
                 /\ ok' \/ PrintT(<<"NONCONFORM", l, "a history which starts">>)
            ELSE /\ s' = RbacStep(s, e)
                 /\ ok' = RbacConforms(s, e)
                 /\ ok' \/ PrintT(<<"NONCONFORM", l, RbacExpected(s, e)>>)
TSpec == TInit /\ [][TNext]_<<l, s, ok>>
Conforms == ok
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
Short == [l |-> l]
=============================================================================
