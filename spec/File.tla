-------------------------------- MODULE File --------------------------------
(* An enforcer with file adapters: the storage of module Storage, plus the rules which each     *)
(* file holds. What an adapter accepts is in the file.                                      *)
(*   st     state of Storage; all adapters take batches                                     *)
(*   files  rules of each file (sets)                                                        *)
(*   broken  files which cannot be read or written at the moment                             *)
(*   spoiled files with a malformed line: nothing can be loaded, added or removed, and the     *)
(*           rules in it stay as they are until the line is taken out or the file is replaced   *)
(* A file may hold rules which the model refuses (Strange). Loading them is an error; which of   *)
(* the other rules have been loaded by then is open.                                        *)
EXTENDS Storage
Written(f, c) == CASE c.t = "adds" /\ c.ok -> f \cup ToSet(c.rs)
                   [] c.t = "dels" /\ c.ok -> f \ ToSet(c.rs)
                   [] c.t = "save" /\ c.ok -> c.rules
                   [] OTHER -> f
RECURSIVE WriteAll(_, _)
WriteAll(files, cs) == IF cs = << >> THEN files ELSE WriteAll([files EXCEPT ![Head(cs).a] = Written(@, Head(cs))], Tail(cs))
Faulty(s) == [s.st EXCEPT !.plans = [a \in 1..Len(@) |-> IF a \in s.broken \cup s.spoiled THEN [i \in 1..20 |-> TRUE] ELSE << >>]]
Enforced(s, e) ==
  CASE e.op = "load" -> StorageStep(Faulty(s), [op |-> "load", rules |-> IF s.st.ad \in s.broken THEN << >> ELSE SetToSeq(s.files[s.st.ad]), fail |-> s.st.ad \in s.broken])
    [] e.op = "save" -> StorageStep(Faulty(s), [op |-> "save", fail |-> s.st.ad \in s.broken])
    [] OTHER -> StorageStep(Faulty(s), e)
InForce == {"add", "remove", "madd", "mremove", "addrules", "removerules", "clear", "flush", "load", "save", "setadapter", "setmodel", "storage", "autosave", "addwait"}
FileInit(e) ==
  LET st == StorageInit([op |-> "init", models |-> e.models, kinds |-> [i \in 1..Len(e.files) |-> "batch"], cur |-> 1, ad |-> 1, opts |-> e.opts])
      f == [i \in 1..Len(e.files) |-> ToSet(e.files[i])]
  IN [st |-> IF e.form = "path" THEN [st EXCEPT !.ms[1] = f[1]] ELSE st, files |-> f, broken |-> {}, spoiled |-> {}]
FileStep(s, e) ==
  CASE e.op \in InForce -> LET st == Enforced(s, e) IN [s EXCEPT !.st = st, !.files = WriteAll(@, st.calls), !.spoiled = @ \ {c.a : c \in {x \in ToSet(st.calls) : x.t = "save" /\ x.ok}}]
    [] e.op = "fadd" /\ e.a \notin s.broken \cup s.spoiled -> [s EXCEPT !.files[e.a] = @ \cup ToSet(e.rules)]
    [] e.op = "fdel" /\ e.a \notin s.broken \cup s.spoiled -> [s EXCEPT !.files[e.a] = @ \ ToSet(e.rules)]
    [] e.op = "loadstrange" -> [s EXCEPT !.st.ms[s.st.cur] = ToSet(e.res.rules)]
    [] e.op = "raw" -> [s EXCEPT !.files[e.a] = ToSet(e.rules), !.spoiled = @ \ {e.a}]
    [] e.op = "spoil" -> [s EXCEPT !.spoiled = @ \cup {e.a}]
    [] e.op = "unspoil" -> [s EXCEPT !.spoiled = @ \ {e.a}]
    [] e.op = "break" -> [s EXCEPT !.broken = @ \cup {e.a}]
    [] e.op = "mend" -> [s EXCEPT !.broken = @ \ {e.a}]
    [] OTHER -> s
Strange(s, a) == {x \in s.files[a] : x[1] \notin {"p", "p2", "g"} \/ (x[1] = "g" /\ Len(x) < 3)}
Same(seq, set) == Cardinality(ToSet(seq)) = Len(seq) /\ ToSet(seq) = set
FileConforms(s, e) ==
  LET r == e.res
      told == r.err \/ r.panic
  IN CASE e.op \in {"add", "remove", "madd", "mremove"} ->
            LET i == IF e.op \in {"add", "remove"} THEN s.st.cur ELSE e.i
                t == IF e.op \in {"add", "madd"} THEN "add" ELSE "del"
                s2 == Enforced(s, e) IN told = s2.err /\ (~s2.err => r.ok = Effective(s.st, i, t, e.rule))
       [] e.op \in InForce -> told = Enforced(s, e).err
       [] e.op = "list" -> ~told /\ Same(r.rules, s.st.ms[e.i])
       [] e.op = "status" -> ~told /\ r.storage = s.st.en /\ r.autosave = s.st.auto
       \* what another adapter reads from the file
       [] e.op = "content" -> IF e.a \in s.spoiled THEN r.err ELSE ~told /\ ToSet(r.rules) = s.files[e.a]
       \* a new enforcer made from the paths of model and policy
       [] e.op = "fresh" -> IF e.a \in s.spoiled \/ Strange(s, e.a) # {} THEN r.err ELSE ~told /\ Same(r.rules, s.files[e.a])
       [] e.op = "loadstrange" -> LET a == s.st.ad IN
                                  /\ r.err = (Strange(s, a) # {}) /\ ~r.panic
                                  /\ Cur(s.st) \subseteq ToSet(r.rules) /\ ToSet(r.rules) \subseteq Cur(s.st) \cup (s.files[a] \ Strange(s, a))
                                  /\ ~r.err => s.files[a] \subseteq ToSet(r.rules)
       [] e.op \in {"fadd", "fdel"} -> ~r.panic /\ r.err = (e.a \in s.broken \cup s.spoiled)
       [] e.op \in {"raw", "break", "mend", "spoil", "unspoil"} -> ~told
       [] OTHER -> FALSE
FileExpected(s, e) == LET s2 == FileStep(s, e) IN [files |-> s2.files, err |-> s2.st.err, rules |-> Cur(s2.st), pending |-> s2.st.q]
=============================================================================
