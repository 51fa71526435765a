------------------------------- MODULE Engine -------------------------------
(* The enforcer as its callers see it: a set of rules per key and the answers that follow   *)
(* from it. No index, no cache, no order.                                                  *)
(*                                                                                        *)
(* State s                                                                                *)
(*   w      the world, see Expr; also the definitions                                      *)
(*            w.p   policy key  -> [cols, eft]   (eft: number of the effect column or 0)    *)
(*            w.r   request key -> columns                                                 *)
(*            w.g   role key    -> [kind, limit, nm, dm]; kind is rm, dm, dm2, dm3: 0 to 3      *)
(*                                 levels of domains                                       *)
(*            w.m   matcher key -> [pol, ast]                                              *)
(*            w.e   effect key  -> "some", "nodeny", "both", "bad" or the name of an effector   *)
(*                                 of the caller, "two", "none" or "veto"                   *)
(*          and the definitions as they are written in the text of the model:              *)
(*            w.md  matcher key -> [pol, ast, text], in force once it is built             *)
(*            w.gd  role key -> kind, w.ed effect key -> effect                            *)
(*   pol    policy key -> set of rules                                                     *)
(*   rms    role key -> role manager (Rbac)                                                 *)
(*   held   sequence of matchers built by the caller, each [pol, ast]                       *)
(*   ctx    sequence of contexts built by the caller, each [m, r, e]; r is [key, cols]        *)
EXTENDS Expr

EInit(w) == [w |-> w,
             pol |-> [k \in DOMAIN w.p |-> {}],
             rms |-> [k \in DOMAIN w.g |-> NewManager(w.g[k].kind, w.g[k].limit)],
             held |-> << >>, ctx |-> << >>]

(* ---- rules ---- *)
LinkOf(cols) == Link(cols[1], cols[2], SubSeq(cols, 3, Len(cols)))
RuleOf(l) == <<l.u, l.r>> \o l.d
Known2(s, key) == key \in DOMAIN s.pol \/ key \in DOMAIN s.rms
RulesOf(s, key) == IF key \in DOMAIN s.pol THEN s.pol[key] ELSE {RuleOf(l) : l \in s.rms[key].links}
AllRules(s) == UNION {{<<key>> \o x : x \in RulesOf(s, key)} : key \in DOMAIN s.pol \cup DOMAIN s.rms}
Refused(s, rule) == \/ rule = << >>
                    \/ ~Known2(s, rule[1])
                    \/ rule[1] \in DOMAIN s.rms /\ Len(rule) < 3
Has(s, rule) == Tail(rule) \in RulesOf(s, rule[1])
Put(s, rule) == LET k == rule[1]
                    x == Tail(rule) IN
                IF k \in DOMAIN s.pol THEN [s EXCEPT !.pol[k] = @ \cup {x}]
                ELSE [s EXCEPT !.rms[k] = AddLink(@, LinkOf(x))]
Drop(s, rule) == LET k == rule[1]
                     x == Tail(rule) IN
                 IF k \in DOMAIN s.pol THEN [s EXCEPT !.pol[k] = @ \ {x}]
                 ELSE [s EXCEPT !.rms[k] = DelLink(@, LinkOf(x))]
Clear(s, key) == IF key \in DOMAIN s.pol THEN [s EXCEPT !.pol[key] = {}]
                 ELSE [s EXCEPT !.rms[key] = ClearLinks(@)]
(* a sequence of changes: what = "add" or "del" for all rules; yields state and announcements *)
RECURSIVE Run(_, _, _, _)
Run(s, what, rules, i) ==
  IF i > Len(rules) THEN [s |-> s, ev |-> << >>, err |-> FALSE]
  ELSE IF Refused(s, rules[i]) THEN [s |-> s, ev |-> << >>, err |-> TRUE]
  ELSE LET eff == Has(s, rules[i]) = (what = "del")
           s2 == IF what = "add" THEN Put(s, rules[i]) ELSE Drop(s, rules[i])
           rest == Run(s2, what, rules, i + 1)
       IN [rest EXCEPT !.ev = (IF eff THEN <<[t |-> what, rule |-> rules[i]]>> ELSE << >>) \o @]

(* ---- evaluation ---- *)
(* an expression can be parsed if all functions it calls are known *)
Buildable(s, ast) == Calls(ast) \subseteq DOMAIN s.w.fns \cup DOMAIN s.rms
Levels(kind) == CASE kind = "rm" -> 0 [] kind = "dm" -> 1 [] kind = "dm2" -> 2 [] kind = "dm3" -> 3
GCols(s, key) == <<"user", "role", "domain">> \o (IF key \in DOMAIN s.w.gd THEN SubSeq(<<"domain2", "domain3">>, 1, Levels(s.w.gd[key]) - 1) ELSE << >>)
Env(s, m, r, req, rule) ==
  [rule |-> rule, pkey |-> m.pol, cols |-> IF m.pol \in DOMAIN s.w.p THEN s.w.p[m.pol].cols ELSE GCols(s, m.pol),
   req |-> req, rkey |-> r.key, rcols |-> r.cols, rms |-> s.rms, w |-> s.w]
EmptyRule(s, m) == [i \in 1..Len(s.w.p[m.pol].cols) |-> ""]
(* matches: t the rules which match, u those for which the expression has no value, *)
(* pe whether an evaluation may meet an error                                       *)
Matches(s, m, r, req, rules) ==
  LET val == [x \in rules |-> Ev(Env(s, m, r, req, x), m.ast)] IN
  [t |-> {x \in rules : val[x].v = "T"}, u |-> {x \in rules : val[x].v = "E"},
   pe |-> ~Buildable(s, m.ast) \/ \E x \in rules : val[x].pe]
Eft(s, m, x) == LET i == s.w.p[m.pol].eft IN
                IF i = 0 THEN "allow" ELSE CASE x[i] \in {"", "allow"} -> "allow" [] x[i] = "deny" -> "deny" [] OTHER -> "other"
(* the effects which can be written down follow from the kinds of effects that occur *)
Holds(effect, efts) == CASE effect = "some" -> "allow" \in efts
                         [] effect = "nodeny" -> "deny" \notin efts
                         [] effect = "both" -> "allow" \in efts /\ "deny" \notin efts

(* an effector of the caller is given all rules which match, with their effects:  *)
(* two allows if two rules or more allow, none if no rule matches, veto fails as  *)
(* soon as a rule denies and allows if a rule does                                *)
Own == {"two", "none", "veto"}
Judge(s, m, effect, rules) ==
  CASE effect = "two" -> Cardinality({x \in rules : Eft(s, m, x) = "allow"}) > 1
    [] effect = "none" -> rules = {}
    [] effect = "veto" -> \E x \in rules : Eft(s, m, x) = "allow"
Vetoed(s, m, effect, rules) == effect = "veto" /\ \E x \in rules : Eft(s, m, x) = "deny"

(* decision: dec the answers that are right, err whether an error may (must) be reported *)
Decide(s, m, r, req, effect) ==
  IF m.pol \notin DOMAIN s.pol \/ effect = "bad" THEN [dec |-> {}, err |-> TRUE]
  ELSE LET rules == IF s.pol[m.pol] = {} THEN {EmptyRule(s, m)} ELSE s.pol[m.pol]
           mt == Matches(s, m, r, req, rules)
           t == {Eft(s, m, x) : x \in mt.t}
           u == {Eft(s, m, x) : x \in mt.u}
           all == IF effect \in Own THEN {Judge(s, m, effect, mt.t), Judge(s, m, effect, mt.t \cup mt.u)}
                  ELSE {Holds(effect, t \cup x) : x \in SUBSET u}
           veto == Vetoed(s, m, effect, mt.t \cup mt.u)
       IN [dec |-> IF Cardinality(all) = 1 /\ ~veto THEN all ELSE {}, err |-> mt.pe \/ veto]
(* listing: the only right list, unless an error has to be reported *)
Listing(s, m, r, req) ==
  IF ~Known2(s, m.pol) THEN [ok |-> FALSE, rules |-> {}, err |-> TRUE]
  ELSE LET mt == Matches(s, m, r, req, RulesOf(s, m.pol))
       IN [ok |-> mt.u = {}, rules |-> {<<m.pol>> \o x : x \in mt.t}, err |-> mt.pe]

(* ---- requests: which matcher, request definition and effect are in force ---- *)
(* q.m: [k |-> "def"], [k |-> "named", name], [k |-> "expr", pol, ast], [k |-> "held", i], [k |-> "bad"] *)
(* q.r: key or "", or q.rd: a definition of the caller, [key, cols];  q.e: "", key, or one of =some =nodeny =both =bad for an expression,                 *)
(* =two =none =veto for an effector of the caller                                                      *)
None == [none |-> TRUE]
CanBuild(s, m) == Known2(s, m.pol) /\ Buildable(s, m.ast)
(* a name which is not that of a matcher is read as an expression, here about the default policy *)
Undefined(s, name) == IF "p" \in DOMAIN s.pol THEN [pol |-> "p", ast |-> <<"unk", name>>] ELSE None
FindM(s, m) == CASE m.k = "def" -> IF "m" \in DOMAIN s.w.m THEN s.w.m["m"] ELSE Undefined(s, "m")
                 [] m.k = "named" -> IF m.name \in DOMAIN s.w.m THEN s.w.m[m.name] ELSE Undefined(s, m.name)
                 [] m.k = "expr" -> IF CanBuild(s, m) THEN [pol |-> m.pol, ast |-> m.ast] ELSE None
                 [] m.k = "held" -> s.held[m.i]
                 [] m.k = "bad" -> None
FindR(s, q) == IF "rd" \in DOMAIN q THEN [key |-> q.rd.key, cols |-> q.rd.cols]
               ELSE LET k == IF q.r = "" THEN "r" ELSE q.r IN IF k \in DOMAIN s.w.r THEN [key |-> k, cols |-> s.w.r[k]] ELSE [key |-> "", cols |-> << >>]
FindE(s, e) == CASE e = "=some" -> "some" [] e = "=nodeny" -> "nodeny" [] e = "=both" -> "both" [] e = "=bad" -> "bad"
                 [] e = "=two" -> "two" [] e = "=none" -> "none" [] e = "=veto" -> "veto"
                 [] OTHER -> LET k == IF e = "" THEN "e" ELSE e IN IF k \in DOMAIN s.w.e THEN s.w.e[k] ELSE "bad"
Context(s, q) == [m |-> FindM(s, q.m), r |-> FindR(s, q), e |-> FindE(s, q.e)]
Unusable(c) == "none" \in DOMAIN c.m \/ c.r.key = ""

(* ---- definitions ---- *)
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rem(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
SameMap(f, g) == DOMAIN f = DOMAIN g /\ \A k \in DOMAIN f : f[k] = g[k]
(* a new definition of a policy or role has no rules, matchers change when they are built *)
Define(s, d) ==
  CASE d.sec = "r" -> [s EXCEPT !.w.r = Upd(@, d.key, d.cols)]
    [] d.sec = "p" -> [s EXCEPT !.w.p = Upd(@, d.key, [cols |-> d.cols, eft |-> d.eft]), !.pol = Upd(@, d.key, {})]
    [] d.sec = "g" -> [s EXCEPT !.w.g = Upd(@, d.key, [kind |-> d.kind, limit |-> 10, nm |-> {}]), !.w.gd = Upd(@, d.key, d.kind),
                                !.rms = Upd(@, d.key, NewManager(d.kind, 10))]
    [] d.sec = "e" -> [s EXCEPT !.w.e = Upd(@, d.key, d.kind), !.w.ed = Upd(@, d.key, d.kind)]
    [] d.sec = "m" -> [s EXCEPT !.w.md = Upd(@, d.key, [pol |-> d.pol, ast |-> d.ast, text |-> d.text])]
Undefine(s, sec, k) ==
  CASE sec = "r" -> [s EXCEPT !.w.r = Rem(@, k)]
    [] sec = "p" -> [s EXCEPT !.w.p = Rem(@, k), !.pol = Rem(@, k)]
    [] sec = "g" -> [s EXCEPT !.w.g = Rem(@, k), !.w.gd = Rem(@, k), !.rms = Rem(@, k)]
    [] sec = "e" -> [s EXCEPT !.w.e = Rem(@, k), !.w.ed = Rem(@, k)]
    [] sec = "m" -> [s EXCEPT !.w.md = Rem(@, k), !.w.m = Rem(@, k)]
Built(s, k) == k \in DOMAIN s.w.md /\ CanBuild(s, s.w.md[k])
Build(s, k) == [s EXCEPT !.w.m = Upd(@, k, s.w.md[k])]
BuildAll(s) == [s EXCEPT !.w.m = [k \in DOMAIN @ \cup DOMAIN s.w.md |-> IF k \in DOMAIN s.w.md THEN s.w.md[k] ELSE @[k]]]
(* put in place by the caller, the text of the model stays as it is *)
Place(s, d) ==
  CASE d.sec = "m" -> LET m == FindM(s, d.m) IN IF "none" \in DOMAIN m THEN s ELSE [s EXCEPT !.w.m = Upd(@, d.key, m)]
    [] d.sec = "p" -> [s EXCEPT !.pol = Upd(@, d.key, {Tail(r) : r \in ToSet(d.rules)})]
    [] d.sec = "r" -> [s EXCEPT !.w.r = Upd(@, d.key, d.cols)]
    [] d.sec = "e" -> [s EXCEPT !.w.e = Upd(@, d.key, d.kind)]
    [] d.sec = "g" -> [s EXCEPT !.w.g = Upd(@, d.key, [kind |-> d.kind, limit |-> d.limit, nm |-> {}]),
                                !.rms = Upd(@, d.key, NewManager(d.kind, d.limit))]
(* what the text of the model says *)
Text(s) == [r |-> s.w.r, p |-> [k \in DOMAIN s.w.p |-> s.w.p[k].cols], e |-> s.w.ed,
            g |-> [k \in DOMAIN s.w.gd |-> 2 + Levels(s.w.gd[k])], m |-> [k \in DOMAIN s.w.md |-> s.w.md[k].text]]
SameText(a, b) == \A x \in {"r", "p", "e", "g", "m"} : SameMap(a[x], b[x])
(* a new model made from the text, with the functions and rules of the old one *)
CanReload(s) == \A k \in DOMAIN s.w.md : s.w.md[k].pol \in DOMAIN s.w.p \cup DOMAIN s.w.gd
                                           /\ Calls(s.w.md[k].ast) \subseteq DOMAIN s.w.fns \cup DOMAIN s.w.gd
Reload(s) == [s EXCEPT !.w.m = s.w.md, !.w.e = s.w.ed,
                       !.w.g = [k \in DOMAIN s.w.gd |-> [kind |-> s.w.gd[k], limit |-> 10, nm |-> {}]],
                       !.rms = [k \in DOMAIN s.w.gd |-> [NewManager(s.w.gd[k], 10) EXCEPT !.links = s.rms[k].links]]]
InForce(s, sec) == CASE sec = "m" -> DOMAIN s.w.m [] sec = "md" -> DOMAIN s.w.md [] sec = "r" -> DOMAIN s.w.r
                     [] sec = "e" -> DOMAIN s.w.e [] sec = "ed" -> DOMAIN s.w.ed [] sec = "p" -> DOMAIN s.pol \cup DOMAIN s.rms
                     [] sec = "pd" -> DOMAIN s.w.p [] sec = "g" -> DOMAIN s.rms [] sec = "gd" -> DOMAIN s.w.gd
=============================================================================
