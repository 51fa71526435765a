----------------------------- MODULE StorageGen -----------------------------
(* spec -> code: all transitions of a small enforcer with its storage, each reached by the    *)
(* shortest behaviour for (state, last K operations), followed by a look at what is pending.   *)
(* Also the place where the properties of the storage design are checked, with a ghost that    *)
(* knows what is due independently of the queue.                                            *)
EXTENDS Storage, Json
CONSTANTS Universe, K
VARIABLES s, hist, due, locked, good
gvars == <<s, hist, due, locked, good>>

A == <<"p", "a", "x">>
B == <<"p", "b", "x">>
G == <<"g", "a", "b">>
M1 == [p |-> <<"p">>, g |-> <<"g">>]
Kinds == CASE Universe \in {"simple", "fault"} -> <<"simple">>
           [] Universe \in {"batch", "batchfault"} -> <<"batch">>
           [] Universe = "switch" -> <<"simple", "batch">>
InitEv == [op |-> "init", models |-> IF Universe = "switch" THEN <<M1, M1>> ELSE <<M1>>, kinds |-> Kinds, cur |-> 1, ad |-> 1,
           form |-> "ptr", texts |-> [a |-> "a"], opts |-> << >>]
Rs == IF Universe = "switch" THEN {A} ELSE {A, G}
Changing == [op : {"add", "remove"}, rule : Rs]
            \cup [op : {"addrules", "removerules"}, rules : IF Universe = "switch" THEN {<<A, B>>} ELSE {<<A, G>>, <<A, <<"x">>, G>>}]
Options == [op : {"storage", "autosave"}, on : BOOLEAN, via : {0}]
Flushing == {[op |-> "flush", via |-> 0]}
Loading == [op : {"load"}, rules : {<<A>>, <<B, <<"x">>>>}, fail : {FALSE}] \cup {[op |-> "save", fail |-> FALSE]}
Plans == [op : {"plan"}, a : {1}, plan : {<<TRUE>>, <<FALSE, TRUE>>, << >>}]
Waits == {[op |-> "addwait", n |-> 2]}
Switching == [op : {"setmodel"}, i : {1, 2}] \cup [op : {"setadapter"}, a : {1, 2}]
             \cup [op : {"madd", "mremove"}, i : {1, 2}, rule : Rs]
Events == Changing \cup Flushing \cup Options
          \cup CASE Universe \in {"simple", "batch"} -> Waits \cup Loading
                 [] Universe \in {"fault", "batchfault"} -> Plans
                 [] Universe = "switch" -> Switching \cup Loading
NeedsLock == {"storage", "setmodel", "setadapter", "load"}
Reply(st, e) ==
  LET s2 == StorageStep(st, e) IN
  CASE e.op \in {"add", "remove"} /\ ~s2.err ->
         [told |-> FALSE, calls |-> s2.calls, ok |-> Effective(st, st.cur, IF e.op = "add" THEN "add" ELSE "del", e.rule)]
    [] e.op \in {"madd", "mremove"} /\ ~s2.err ->
         [told |-> FALSE, calls |-> s2.calls, ok |-> Effective(st, e.i, IF e.op = "madd" THEN "add" ELSE "del", e.rule)]
    [] e.op = "list" -> [told |-> FALSE, calls |-> << >>, rules |-> st.ms[e.i]]
    [] e.op = "status" -> [told |-> FALSE, calls |-> << >>, storage |-> st.en, autosave |-> st.auto, model |-> st.cur,
                           adapter |-> IF Kind(st) = "noop" THEN 0 ELSE st.ad]
    [] OTHER -> [told |-> s2.err, calls |-> s2.calls]
RECURSIVE RunAll(_, _)
RunAll(st, es) == IF es = << >> THEN << >> ELSE << Head(es) @@ [res |-> Reply(st, Head(es))] >> \o RunAll(StorageStep(st, Head(es)), Tail(es))
Probes == << [op |-> "status"], [op |-> "list", i |-> 1], [op |-> "plan", a |-> 1, plan |-> << >>], [op |-> "flush", via |-> 0], [op |-> "flush", via |-> 1] >>

(* ---- the ghost: what is due, from the changes that had an effect and the calls accepted ---- *)
RECURSIVE Effects(_, _, _)
Effects(rules, t, have) ==   \* effective changes of a list, up to the first malformed one
  IF rules = << >> \/ Len(Head(rules)) < 3 THEN << >>
  ELSE LET r == Head(rules) IN
       IF (r \in have) = (t = "add") THEN Effects(Tail(rules), t, have)
       ELSE <<[t |-> t, rule |-> r]>> \o Effects(Tail(rules), t, IF t = "add" THEN have \cup {r} ELSE have \ {r})
NewDue(st, e) ==
  IF ~st.en THEN << >>
  ELSE CASE e.op = "add" -> Effects(<<e.rule>>, "add", Cur(st))
         [] e.op = "remove" -> Effects(<<e.rule>>, "del", Cur(st))
         [] e.op = "madd" /\ e.i = st.cur -> Effects(<<e.rule>>, "add", Cur(st))
         [] e.op = "mremove" /\ e.i = st.cur -> Effects(<<e.rule>>, "del", Cur(st))
         [] e.op = "addrules" -> Effects(e.rules, "add", Cur(st))
         [] e.op = "removerules" -> Effects(e.rules, "del", Cur(st))
         [] OTHER -> << >>
CallOps(c) == [i \in 1..Len(c.rs) |-> [t |-> IF c.t \in {"add", "adds"} THEN "add" ELSE "del", rule |-> c.rs[i]]]
Writes(cs) == SelectSeq(cs, LAMBDA c : c.t \in {"add", "adds", "del", "dels"})
AcceptedOps(cs) == FlattenSeq([i \in 1..Len(Writes(cs)) |-> IF Writes(cs)[i].ok THEN CallOps(Writes(cs)[i]) ELSE << >>])
(* what has to be true of a single step *)
StepOK(st, e, d) ==
  LET s2 == StorageStep(st, e)
      w == Writes(s2.calls)
      all == d \o NewDue(st, e)
      acc == AcceptedOps(s2.calls)
  IN /\ IsPrefix(acc, all)                                                     \* in order, each once, nothing else
     /\ \A i \in 1..Len(w) : w[i].a = st.ad                                      \* the adapter in force
     /\ \A i \in 1..Len(w) : ~w[i].ok => i = Len(w) /\ s2.err                     \* a failure ends the flush and is reported
     /\ Kind(st) = "batch" => \A i \in 1..Len(w) - 1 : w[i].t # w[i + 1].t         \* maximal groups
     /\ e.op \in {"load", "save", "storage", "autosave", "addwait", "plan", "setmodel", "setadapter"} => w = << >>
     /\ ~st.auto /\ e.op # "flush" => w = << >>                                  \* not before the flush
     /\ (e.op = "flush" \/ (st.auto /\ e.op \in {"addrules", "removerules"})) /\ (\A i \in 1..Len(w) : w[i].ok) => acc = all
     /\ st.auto /\ st.wait = 0 /\ NewDue(st, e) # << >> /\ (\A i \in 1..Len(w) : w[i].ok) => acc = all
     /\ s2.auto = (IF e.op = "autosave" THEN e.on ELSE st.auto)
     /\ s2.en = (CASE e.op = "storage" -> e.on [] e.op = "setadapter" -> TRUE [] OTHER -> st.en)
     /\ (e.op \in {"flush", "add", "remove"} /\ s2.err) => \E i \in 1..Len(w) : ~w[i].ok

GInit == s = StorageInit(InitEv) /\ hist = <<InitEv>> /\ due = << >> /\ locked = FALSE /\ good = TRUE
GNext == \E e \in Events :
           /\ ~(locked /\ e.op \in NeedsLock)
           /\ e.op = "addwait" => s.wait = 0
           /\ e.op = "setadapter" => s.q = << >>     \* whether a replaced adapter's pending changes survive is open
           /\ s' = StorageStep(s, e)
           /\ hist' = Append(hist, e @@ [res |-> Reply(s, e)])
           /\ due' = LET all == due \o NewDue(s, e)
                         n == Len(AcceptedOps(s'.calls)) IN SubSeq(all, n + 1, Len(all))
           /\ locked' = (locked \/ (e.op \in {"add", "remove", "madd", "mremove"} /\ s'.err))
           /\ good' = StepOK(s, e, due)
GSpec == GInit /\ [][GNext]_gvars
Bound == Len(s.q) <= 2
GView == <<[s EXCEPT !.calls = << >>, !.err = FALSE], due, locked, good, SubSeq(hist, IF Len(hist) - K + 1 < 2 THEN 2 ELSE Len(hist) - K + 1, Len(hist))>>
Emit == PrintT(ToJson(hist' \o RunAll(s', Probes)))
StepsOK == good                 \* C11, C12, C13 (no echo), C19
NothingLost == due = s.q         \* C12
=============================================================================
