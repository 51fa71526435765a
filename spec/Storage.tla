------------------------------- MODULE Storage -------------------------------
(* An enforcer, its models and its storage adapters.                                        *)
(*                                                                                         *)
(* State s                                                                                 *)
(*   w      the world: w.models sequence of [p, g] (sets of policy and role keys),            *)
(*          w.kinds sequence of adapter kinds: "simple", "batch", "load" (can only load and    *)
(*          save), "noop" (not recorded)                                                     *)
(*   ms     rules of each model (sets of <<key, columns...>>)                                *)
(*   cur    number of the model in force       ad   number of the adapter in force            *)
(*   en     storage enabled                    auto autosave                                  *)
(*   wait   changes to wait for under autosave                                               *)
(*   q      changes not yet accepted, each [t |-> "add" or "del", rule]                       *)
(*   plans  per adapter what its next writes do: sequence of booleans (TRUE = fail)            *)
(*   calls  calls received by the adapters during the last step                               *)
(*   err    the last step had to report an error                                             *)
(* A call is [a, t, rs, ok]: t is "add", "del" (one rule), "adds", "dels" (batch) or "load",  *)
(* rs the sequence of rules; or [a, t, rules, ok] with t = "save" and the set of rules.       *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
CONSTANT Variant   \* "ok", or a wrong design which StorageGen must refute

Cur(s) == s.ms[s.cur]
Kind(s) == s.w.kinds[s.ad]
KnownKey(s, i, k) == k \in s.w.models[i].p \/ k \in s.w.models[i].g
RefusedIn(s, i, rule) == \/ rule = << >>
                         \/ ~KnownKey(s, i, rule[1])
                         \/ rule[1] \in s.w.models[i].g /\ Len(rule) < 3
Fails(s) == s.plans[s.ad] # << >> /\ Head(s.plans[s.ad])
UsePlan(s) == [s EXCEPT !.plans[s.ad] = IF @ = << >> THEN << >> ELSE Tail(@)]
Called(s, call) == IF Kind(s) = "noop" THEN s ELSE [s EXCEPT !.calls = Append(@, call)]

(* ---- flushing ---- *)
RECURSIVE RunLen(_, _)
RunLen(q, i) == IF i < Len(q) /\ (q[i + 1].t = q[1].t \/ Variant = "mixed") THEN RunLen(q, i + 1) ELSE i
Group(s) == CASE Kind(s) \in {"simple", "noop"} -> 1
              [] Kind(s) = "batch" -> RunLen(s.q, 1)
Rules(q, n) == [i \in 1..n |-> q[i].rule]
RECURSIVE Deliver(_)
Deliver(s) ==
  IF s.q = << >> THEN s
  ELSE LET n == Group(s)
           t == IF Kind(s) = "batch" THEN s.q[1].t \o "s" ELSE s.q[1].t
           fail == Fails(s)
           s2 == Called(UsePlan(s), [a |-> s.ad, t |-> t, rs |-> Rules(s.q, n), ok |-> ~fail])
       IN IF fail THEN [s2 EXCEPT !.err = TRUE, !.q = IF Variant = "forget" THEN << >> ELSE IF Variant = "skip" THEN SubSeq(@, n + 1, Len(@)) ELSE @]
          ELSE Deliver([s2 EXCEPT !.q = SubSeq(@, n + 1, Len(@))])
Flush(s) == IF Kind(s) = "load" THEN [s EXCEPT !.wait = 0, !.err = TRUE]
            ELSE [Deliver(s) EXCEPT !.wait = 0]

(* ---- changes ---- *)
Queue(s, t, rule) ==
  IF ~s.en THEN s
  ELSE LET s2 == [s EXCEPT !.q = Append(@, [t |-> t, rule |-> rule])] IN
       IF ~s.auto THEN s2
       ELSE IF s.wait > 1 THEN [s2 EXCEPT !.wait = @ - 1]
       ELSE Flush(s2)
(* one change of model i; eff tells whether it had an effect *)
Effective(s, i, t, rule) == ~RefusedIn(s, i, rule) /\ (rule \in s.ms[i]) = (t = "del")
Change(s, i, t, rule) ==
  IF RefusedIn(s, i, rule) THEN [s EXCEPT !.err = TRUE]
  ELSE IF ~Effective(s, i, t, rule) THEN (IF Variant = "echo" THEN Queue(s, t, rule) ELSE s)
  ELSE LET s2 == [s EXCEPT !.ms[i] = IF t = "add" THEN @ \cup {rule} ELSE @ \ {rule}] IN
       IF i = s.cur THEN Queue(s2, t, rule) ELSE s2
RECURSIVE Changes(_, _, _, _)
Changes(s, t, rules, k) ==
  IF k > Len(rules) \/ s.err THEN s ELSE Changes(Change(s, s.cur, t, rules[k]), t, rules, k + 1)
Bulk(s, t, rules) ==
  IF ~s.auto THEN Changes(s, t, rules, 1)
  ELSE LET s2 == Changes([s EXCEPT !.auto = FALSE], t, rules, 1)
           s3 == Flush([s2 EXCEPT !.err = FALSE])
       IN [s3 EXCEPT !.auto = (Variant # "autooff"), !.err = s2.err \/ s3.err]
(* loading: the adapter hands the rules to the model until one is refused; nothing is stored *)
Load(s, rules, fail) ==
  LET s1 == Called(s, [a |-> s.ad, t |-> "load", rs |-> << >>, ok |-> TRUE])
      s2 == IF Kind(s) = "noop" THEN s1 ELSE Changes([s1 EXCEPT !.en = (Variant = "loadecho" /\ s.en)], "add", rules, 1)
  IN [s2 EXCEPT !.en = s.en, !.err = s2.err \/ (fail /\ Kind(s) # "noop")]
Save(s, fail) == LET s1 == Called(s, [a |-> s.ad, t |-> "save", rules |-> Cur(s), ok |-> ~fail])
                 IN [s1 EXCEPT !.err = fail /\ Kind(s) # "noop"]

(* ---- events ---- *)
(*   init        models, kinds, cur, ad (0: none given), opts                            *)
(*   add, remove rule             reply ok, err, calls                                    *)
(*   madd, mremove i, rule        the same, at model i itself                              *)
(*   addrules, removerules rules  reply err, calls                                        *)
(*   clear       key              reply err, calls                                        *)
(*   flush, save, load, setadapter, setmodel, storage, autosave, addwait                    *)
(*   plan        a, plan          what the next writes of adapter a do                     *)
(*   list        i                reply rules of model i (a sequence)                      *)
(*   enforce     vals, filter vals: reply dec / rules, judged by the model in force         *)
(*   status                       reply storage, autosave, adapter, model                  *)
Apply(o, s) == CASE o.k = "storage" -> [s EXCEPT !.en = o.on]
                 [] o.k = "autosave" -> [s EXCEPT !.auto = o.on]
ApplyAll(opts, s) == FoldLeft(LAMBDA acc, o : Apply(o, acc), s, opts)
ToSets(m) == [p |-> ToSet(m.p), g |-> ToSet(m.g)]
StorageInit(e) ==
  ApplyAll(e.opts, [w |-> [models |-> [i \in 1..Len(e.models) |-> ToSets(e.models[i])], kinds |-> Append(e.kinds, "noop")],
                    ms |-> [i \in 1..Len(e.models) |-> {}], cur |-> e.cur,
                    ad |-> IF e.ad = 0 THEN Len(e.kinds) + 1 ELSE e.ad,
                    en |-> e.ad # 0, auto |-> FALSE, wait |-> 0, q |-> << >>,
                    plans |-> [i \in 1..Len(e.kinds) + 1 |-> << >>], calls |-> << >>, err |-> FALSE])
StorageStep(s0, e) ==
  LET s == [s0 EXCEPT !.calls = << >>, !.err = FALSE] IN
  CASE e.op = "add" -> Change(s, s.cur, "add", e.rule)
    [] e.op = "remove" -> Change(s, s.cur, "del", e.rule)
    [] e.op = "madd" -> Change(s, e.i, "add", e.rule)
    [] e.op = "mremove" -> Change(s, e.i, "del", e.rule)
    [] e.op = "addrules" -> Bulk(s, "add", e.rules)
    [] e.op = "removerules" -> Bulk(s, "del", e.rules)
    [] e.op = "clear" -> IF KnownKey(s, s.cur, e.key) THEN [s EXCEPT !.ms[s.cur] = {x \in @ : x[1] # e.key}] ELSE [s EXCEPT !.err = TRUE]
    [] e.op = "flush" -> Flush(s)
    [] e.op = "save" -> Save(s, e.fail)
    [] e.op = "load" -> Load(s, e.rules, e.fail)
    [] e.op = "setadapter" -> [s EXCEPT !.ad = e.a, !.q = << >>, !.wait = 0, !.en = TRUE]
    [] e.op = "setmodel" -> [s EXCEPT !.cur = e.i]
    [] e.op \in {"storage", "autosave"} -> Apply([k |-> e.op, on |-> e.on], s)
    [] e.op = "addwait" -> [s EXCEPT !.wait = @ + e.n]
    [] e.op = "plan" -> [s EXCEPT !.plans[e.a] = e.plan]
    [] OTHER -> s
(* what an enforcer over (sub, obj) rules with "some allow" answers *)
Granted(s, vals) == {x \in Cur(s) : x[1] = "p" /\ x[2] = vals[1] /\ x[3] = vals[2]}

(* replies which the specification allows *)
CallOK(c, x) == c.a = x.a /\ c.t = x.t /\ c.ok = x.ok
                /\ IF x.t = "save" THEN Cardinality(ToSet(c.rules)) = Len(c.rules) /\ ToSet(c.rules) = x.rules ELSE c.rs = x.rs
CallsOK(cs, xs) == Len(cs) = Len(xs) /\ \A i \in 1..Len(xs) : CallOK(cs[i], xs[i])
StorageConforms(s, e) ==
  LET r == e.res
      s2 == StorageStep(s, e)
      told == r.err \/ r.panic     \* a failing write under autosave is reported by a panic
  IN CASE e.op \in {"add", "remove", "madd", "mremove"} ->
            LET i == IF e.op \in {"add", "remove"} THEN s.cur ELSE e.i
                t == IF e.op \in {"add", "madd"} THEN "add" ELSE "del" IN
            /\ told = s2.err
            /\ CallsOK(r.calls, s2.calls)
            /\ ~s2.err => r.ok = Effective(s, i, t, e.rule)
       [] e.op = "list" -> ~told /\ CallsOK(r.calls, << >>) /\ Cardinality(ToSet(r.rules)) = Len(r.rules) /\ ToSet(r.rules) = s.ms[e.i]
       [] e.op = "enforce" -> ~told /\ CallsOK(r.calls, << >>) /\ r.dec = (Granted(s, e.vals) # {})
       [] e.op = "filter" -> ~told /\ CallsOK(r.calls, << >>) /\ ToSet(r.rules) = Granted(s, e.vals)
       [] e.op = "status" -> ~told /\ CallsOK(r.calls, << >>) /\ r.storage = s.en /\ r.autosave = s.auto /\ r.model = s.cur
                             /\ r.adapter = IF Kind(s) = "noop" THEN 0 ELSE s.ad
       \* whether a flush without anything to write complains about an adapter which cannot write is open
       [] e.op = "flush" /\ Kind(s) = "load" /\ s.q = << >> -> ~r.panic /\ CallsOK(r.calls, << >>)
       [] e.op \in {"flush", "load", "save", "clear", "setadapter", "setmodel", "storage", "autosave", "addwait", "plan"} ->
            ~r.panic /\ r.err = s2.err /\ CallsOK(r.calls, s2.calls)
       [] e.op \in {"addrules", "removerules"} -> told = s2.err /\ CallsOK(r.calls, s2.calls)
       [] OTHER -> FALSE
StorageExpected(s, e) == LET s2 == StorageStep(s, e) IN [calls |-> s2.calls, err |-> s2.err, pending |-> s2.q, rules |-> Cur(s2), state |-> <<s2.en, s2.auto, s2.wait, s2.ad, s2.cur>>]
=============================================================================
