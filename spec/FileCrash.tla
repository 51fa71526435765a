----------------------------- MODULE FileCrash -----------------------------
(* code -> spec: runs of a process which saves (or loads) a policy file, stopped at every system *)
(* call, some of which failed, were cut short or were the last ones.                          *)
EXTENDS FiniteSets, SequencesExt, Json, IOUtils, TLC, Naturals
VARIABLES l, s, ok
FS == INSTANCE FileSave WITH Variant <- "ok", Rounds <- 0, Size <- 0, BufSize <- 0, pc <- "idle", round <- 0, old <- 0, new <- 0,
                             target <- 0, tmp <- 0, buf <- 0, todo <- 0, inj <- FALSE, ret <- "none"
Trace == ndJsonDeserialize(IOEnv.TRACE)
Before(e) == IF e.missing THEN {"!missing"} ELSE ToSet(e.file)
After(e) == LET b == ToSet(e.file) IN
            CASE e.kind = "save" -> ToSet(e.rules)
              [] e.kind = "adds" -> b \cup ToSet(e.rules)
              [] e.kind = "dels" -> b \ ToSet(e.rules)
              [] OTHER -> Before(e)
RunConforms(o, n, kind, e) ==
  LET r == e.res IN
  \* at every moment, and after a dead process another one saves again
  /\ \A i \in 1..Len(r.seen) : FS!Whole(ToSet(r.seen[i]), o, n)
  /\ FS!Whole(ToSet(r.after), o, n)
  /\ FS!Answer(r.ret = "ok", r.must, ToSet(r.after), n)
  /\ r.ret = "dead" => e.how \in {"kill", "tear"} /\ r.hit
  /\ r.ret = "err" => r.hit
  /\ kind = "load" /\ r.ret = "ok" => ToSet(r.loaded) = n
  /\ r.again = "ok" /\ ToSet(r.then) = n
  \* apart from its content the file is as it was, and nothing else is left behind
  /\ e.how = "none" => r.kept.link /\ r.kept.mode
  /\ r.ret # "dead" => r.kept.extra = 0
ManyConforms(n, e) == e.res.ret = "ok" /\ ToSet(e.res.after) = n
TInit == l = 1 /\ s = [w |-> 0] /\ ok = TRUE
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op = "init"
            THEN /\ s' = [o |-> Before(e), n |-> After(e), kind |-> e.kind]
                 /\ ok' = ("panic" \notin DOMAIN e.res)
            ELSE /\ UNCHANGED s
                 /\ ok' = (CASE e.op = "run" -> RunConforms(s.o, s.n, s.kind, e) [] e.op = "many" -> ManyConforms(s.n, e) [] OTHER -> FALSE)
                 /\ ok' \/ PrintT(<<"NONCONFORM", l, s>>)
TSpec == TInit /\ [][TNext]_<<l, s, ok>>
Conforms == ok
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
Short == [l |-> l]
=============================================================================
