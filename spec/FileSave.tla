------------------------------ MODULE FileSave ------------------------------
(* Replacing the content of a file which other processes read, by a process which may die, and  *)
(* whose system calls may fail, at any point. One round is one save; the content afterwards is    *)
(* the previous content of the next round.                                                  *)
(*   target   what a reader finds (a sequence of chunks), tmp the file next to it or None          *)
(*   buf      chunks which the process has not handed to the system yet                        *)
(*   inj      a call failed in this save whose failure means that something was not written      *)
(* Variants, all of which must be refuted:                                                  *)
(*   inplace     the file is truncated and written itself                                     *)
(*   renameearly the file is replaced before everything is written                           *)
(*   noflush     the last chunks stay in the buffer                                           *)
(*   swallow     an error while writing is not looked at                                      *)
(*   unchecked   an error of the last steps (sync, close) is not looked at                       *)
EXTENDS Naturals, Sequences
CONSTANTS Variant, Rounds, Size, BufSize
None == << <<0, 0>> >>
VARIABLES pc, round, old, new, target, tmp, buf, todo, inj, ret
vars == <<pc, round, old, new, target, tmp, buf, todo, inj, ret>>

(* ---- what must hold, of this module and of the recorded runs of the code (FileCrash) ---- *)
\* what any process finds at any time
Whole(found, before, after) == found \in {before, after}
\* what an answer means; bad: something was not written
Answer(ok, bad, found, after) == ok => ~bad /\ found = after

Content(r) == [i \in 1..Size |-> <<r, i>>]
Init == /\ pc = "idle" /\ round = 0 /\ old = Content(0) /\ new = Content(0) /\ target = Content(0)
        /\ tmp = None /\ buf = << >> /\ todo = << >> /\ inj = FALSE /\ ret = "none"
Begin == /\ pc = "idle" /\ round < Rounds
         /\ round' = round + 1 /\ old' = target /\ new' = Content(round + 1) /\ todo' = Content(round + 1)
         /\ pc' = "open" /\ buf' = << >> /\ inj' = FALSE /\ ret' = "none"
         /\ tmp' = None \* the new file gets a name of its own, a dead process may have left another one
         /\ UNCHANGED target
Open == /\ pc = "open"
        /\ IF Variant = "inplace" THEN target' = << >> /\ UNCHANGED tmp ELSE tmp' = << >> /\ UNCHANGED target
        /\ pc' = "put" /\ UNCHANGED <<round, old, new, buf, todo, inj, ret>>
Written == IF Variant = "inplace" THEN target ELSE tmp
Place(c) == IF Variant = "inplace" THEN target' = c /\ UNCHANGED tmp
            ELSE tmp' = c /\ UNCHANGED target
Put == /\ pc = "put"
       /\ IF todo = << >> THEN pc' = IF Variant = "noflush" THEN "sync" ELSE "write"
          ELSE IF Len(buf) = BufSize THEN pc' = "write" ELSE pc' = "put"
       /\ IF todo # << >> /\ Len(buf) < BufSize
          THEN buf' = Append(buf, Head(todo)) /\ todo' = Tail(todo) ELSE UNCHANGED <<buf, todo>>
       /\ UNCHANGED <<round, old, new, target, tmp, inj, ret>>
\* one system call, which may write only the first n chunks
Write == /\ pc = "write"
         /\ IF buf = << >> THEN Place(Written) /\ pc' = (IF todo = << >> THEN "sync" ELSE "put") /\ UNCHANGED buf
            ELSE \E n \in 1..Len(buf) : /\ Place(Written \o SubSeq(buf, 1, n))
                                        /\ buf' = SubSeq(buf, n + 1, Len(buf))
                                        /\ pc' = IF n < Len(buf) THEN "write" ELSE IF todo = << >> THEN "sync" ELSE "put"
         /\ UNCHANGED <<round, old, new, todo, inj, ret>>
WriteFails == /\ pc = "write" /\ buf # << >> /\ inj' = TRUE
              /\ IF Variant = "swallow" THEN buf' = << >> /\ pc' = (IF todo = << >> THEN "sync" ELSE "put") /\ UNCHANGED ret
                 ELSE pc' = "clean" /\ UNCHANGED <<buf, ret>>
              /\ UNCHANGED <<round, old, new, target, tmp, todo>>
Sync == /\ pc = "sync" /\ pc' = (IF Variant = "inplace" THEN "done" ELSE "rename") /\ UNCHANGED <<round, old, new, target, tmp, buf, todo, inj, ret>>
SyncFails == /\ pc = "sync" /\ inj' = TRUE
             /\ pc' = (IF Variant = "unchecked" THEN "rename" ELSE "clean")
             /\ UNCHANGED <<round, old, new, target, tmp, buf, todo, ret>>
Early == /\ Variant = "renameearly" /\ pc = "put" /\ tmp # None /\ Len(tmp) > 0
         /\ target' = tmp /\ tmp' = << >> /\ pc' = "sync" /\ UNCHANGED <<round, old, new, buf, todo, inj, ret>>
Rename == /\ pc = "rename" /\ target' = tmp /\ tmp' = None /\ pc' = "done" /\ UNCHANGED <<round, old, new, buf, todo, inj, ret>>
RenameFails == /\ pc = "rename" /\ inj' = TRUE /\ pc' = "clean" /\ UNCHANGED <<round, old, new, target, tmp, buf, todo, ret>>
Done == /\ pc = "done" /\ ret' = "ok" /\ pc' = "idle" /\ UNCHANGED <<round, old, new, target, tmp, buf, todo, inj>>
OpenFails == /\ pc = "open" /\ inj' = TRUE /\ pc' = "clean" /\ UNCHANGED <<round, old, new, target, tmp, buf, todo, ret>>
Clean == /\ pc = "clean" /\ tmp' = None /\ ret' = "err" /\ pc' = "idle" /\ UNCHANGED <<round, old, new, target, buf, todo, inj>>
\* the process is gone, and with it what it had buffered; another one takes over
Die == /\ pc \notin {"idle"} /\ pc' = "idle" /\ ret' = "dead" /\ buf' = << >> /\ todo' = << >>
       /\ UNCHANGED <<round, old, new, target, tmp, inj>>
Next == Begin \/ Open \/ Put \/ Write \/ WriteFails \/ Sync \/ SyncFails \/ Early \/ Rename \/ RenameFails \/ Done \/ OpenFails \/ Clean \/ Die
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Next)

AlwaysWhole == Whole(target, old, new)
Answers == ret # "none" => Answer(ret = "ok", inj, target, new)
NothingBuffered == ret = "ok" => buf = << >>
Ends == []<>(pc = "idle")
=============================================================================
