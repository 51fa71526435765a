------------------------------ MODULE FnTrace ------------------------------
(* code -> spec: recorded questions to the functions of matchers *)
EXTENDS FnTable, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ok, s
RECURSIVE Written(_)
Written(e) == IF e.op = "together" THEN \A k \in 1..Len(e.asks) : Written(e.asks[k]) ELSE e.op = "match" => e.text = Text(e.fn, e.pat) /\ \A i \in 1..Len(e.subjects) : e.texts[i] = SubjectText(e.fn, e.subjects[i])
TInit == l = 1 /\ ok = TRUE /\ s = FInit
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l] IN
            /\ s' = IF e.op = "init" THEN FInit ELSE FStep(s, e)
            /\ ok' = IF e.op = "init" THEN "panic" \notin DOMAIN e.res ELSE Written(e) /\ e.res = FReply(s, e)
            /\ ok' \/ PrintT(<<"NONCONFORM", l, IF e.op = "init" THEN "a start" ELSE IF Written(e) THEN FReply(s, e) ELSE "a text which is not that of the pattern">>)
TSpec == TInit /\ [][TNext]_<<l, ok, s>>
Conforms == ok
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
Short == [l |-> l]
=============================================================================
