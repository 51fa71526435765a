----------------------------- MODULE EngineSteps ----------------------------
(* Events of an engine history: next state and allowed replies.                             *)
(*   init        world                                                                     *)
(*   add, remove rule                  reply ok, err, ev                                    *)
(*   addrules, removerules, load rules reply err, ev                                        *)
(*   clear       key                   reply err, ev (nothing)                              *)
(*   setnm       key, i                installs a matcher for role names of a role manager   *)
(*   build       m                     reply err; the matcher is kept and called held i      *)
(*   context     q                     reply err; the context is kept and called ctx i       *)
(*   enforce     q or ctx, vals        reply dec, err                                       *)
(*   filter      q or ctx, vals        reply rules, err                                     *)
(*   range       q or ctx, vals, stop  reply rules, calls, err                              *)
(*   list        stop                  reply rules (a sequence), calls                       *)
(*   polrange    key, stop             reply rules, calls                                   *)
(*   distinct    key, cols             reply rules, err                                     *)
(*   has         key, u, r, d          reply ok, err: membership asked at the role manager   *)
(*   def, undef  sec, key, ...         reply err, ev: SetDef, RemoveDef                       *)
(*   place       sec, key, ...         reply err: matcher, request, effect or role put in place  *)
(*   buildone    key                   reply err: BuildMatcher                               *)
(*   buildall                          reply err: BuildMatchers                              *)
(*   setfn       name, rows            a function, replaces one of that name                  *)
(*   removefn    name                  reply ok                                              *)
(*   known       sec, key              reply ok: is there a definition, matcher, ...          *)
(*   describe    again                 reply text, and if again: err, again (text of a copy)    *)
(*   reload                            reply err: continues with a copy of the model          *)
(*   refuse      what                  reply err, ev: malformed call, has to be refused      *)
(* ev is the sequence of announcements, each [t, rule, seen]: seen tells that the change      *)
(* had taken effect when it was announced.                                                 *)
EXTENDS Engine
ToRel(seq) == {<<p[1], p[2]>> : p \in ToSet(seq)}
Opt(e, f) == IF f \in DOMAIN e THEN e[f] ELSE << >>
World(e) == [p |-> e.p, r |-> e.r, m |-> e.m, e |-> e.e, md |-> e.m, ed |-> e.e, gd |-> [k \in DOMAIN e.g |-> e.g[k].kind],
             g |-> [k \in DOMAIN e.g |-> [kind |-> e.g[k].kind, limit |-> e.g[k].limit, nm |-> ToRel(e.g[k].nm)]],
             srank |-> e.srank, rx |-> ToRel(e.rx), subs |-> e.subs, objs |-> e.objs,
             cat |-> Opt(e, "cat"), tfns |-> Opt(e, "tfns"), arith |-> Opt(e, "arith"),
             fns |-> [k \in DOMAIN e.fns |-> ToRel(e.fns[k])]]
EngineInit(e) == EInit(World(e))

CtxOf(s, e) == IF "ctx" \in DOMAIN e THEN s.ctx[e.ctx] ELSE Context(s, e.q)
EngineStep(s, e) ==
  CASE e.op = "add" -> Run(s, "add", <<e.rule>>, 1).s
    [] e.op = "remove" -> Run(s, "del", <<e.rule>>, 1).s
    [] e.op \in {"addrules", "load"} -> Run(s, "add", e.rules, 1).s
    [] e.op = "removerules" -> Run(s, "del", e.rules, 1).s
    [] e.op = "clear" -> IF Known2(s, e.key) THEN Clear(s, e.key) ELSE s
    [] e.op = "setnm" -> [s EXCEPT !.rms[e.key] = SetNM(@, IF e.i = 0 THEN {} ELSE s.w.g[e.key].nm)]
    [] e.op = "build" -> LET m == FindM(s, e.m) IN IF "none" \in DOMAIN m THEN s ELSE [s EXCEPT !.held = Append(@, m)]
    [] e.op = "context" -> LET c == Context(s, e.q) IN IF Unusable(c) THEN s ELSE [s EXCEPT !.ctx = Append(@, c)]
    [] e.op = "def" -> Define(s, e)
    [] e.op = "undef" -> Undefine(s, e.sec, e.key)
    [] e.op = "place" -> Place(s, e)
    [] e.op = "buildone" -> IF Built(s, e.key) THEN Build(s, e.key) ELSE s
    [] e.op = "buildall" -> BuildAll(s)
    [] e.op = "setfn" -> [s EXCEPT !.w.fns = Upd(@, e.name, ToRel(e.rows))]
    [] e.op = "removefn" -> [s EXCEPT !.w.fns = Rem(@, e.name)]
    [] e.op = "reload" -> IF CanReload(s) THEN Reload(s) ELSE s
    [] OTHER -> s

Told(ev) == [i \in 1..Len(ev) |-> [t |-> ev[i].t, rule |-> ev[i].rule]]
Announced(res, ev) == Told(res.ev) = ev /\ \A i \in 1..Len(res.ev) : res.ev[i].seen
NoDuplicates(q) == Cardinality(ToSet(q)) = Len(q)
(* a complete or stopped enumeration of the set: every element once *)
EnumOK(r, set, stop) ==
  /\ NoDuplicates(r.rules)
  /\ ToSet(r.rules) \subseteq set
  /\ r.calls = Len(r.rules)
  /\ r.calls = IF stop > 0 /\ stop < Cardinality(set) THEN stop ELSE Cardinality(set)
EngineConforms(s, e) ==
  LET r == e.res IN
  IF "panic" \in DOMAIN r THEN FALSE
  ELSE CASE e.op \in {"add", "remove"} ->
              LET x == Run(s, IF e.op = "add" THEN "add" ELSE "del", <<e.rule>>, 1) IN
              r.err = x.err /\ r.ok = (x.ev # << >>) /\ Announced(r, x.ev)
         [] e.op \in {"addrules", "removerules", "load"} ->
              LET x == Run(s, IF e.op = "removerules" THEN "del" ELSE "add", e.rules, 1) IN r.err = x.err /\ Announced(r, x.ev)
         [] e.op = "clear" -> r.err = ~Known2(s, e.key) /\ r.ev = << >>
         [] e.op = "setnm" -> TRUE
         [] e.op = "build" -> r.err = ("none" \in DOMAIN FindM(s, e.m))
         [] e.op = "context" -> r.err = Unusable(Context(s, e.q))
         [] e.op = "enforce" ->
              LET c == CtxOf(s, e) IN
              IF r.err THEN ~r.dec /\ (Unusable(c) \/ Decide(s, c.m, c.r, e.vals, c.e).err)
              ELSE ~Unusable(c) /\ r.dec \in Decide(s, c.m, c.r, e.vals, c.e).dec
         [] e.op = "filter" ->
              LET c == CtxOf(s, e) IN
              IF r.err THEN Unusable(c) \/ Listing(s, c.m, c.r, e.vals).err
              ELSE ~Unusable(c) /\ LET l == Listing(s, c.m, c.r, e.vals) IN l.ok /\ ToSet(r.rules) = l.rules
         [] e.op = "range" ->
              LET c == CtxOf(s, e) IN
              IF Unusable(c) THEN r.err /\ r.calls = 0
              ELSE LET l == Listing(s, c.m, c.r, e.vals) IN
                   /\ ToSet(r.rules) \subseteq l.rules
                   /\ r.calls = Len(r.rules)
                   /\ e.stop > 0 => r.calls <= e.stop
                   /\ IF r.err THEN l.err
                      ELSE \/ e.stop > 0 /\ r.calls = e.stop
                           \/ l.ok /\ ToSet(r.rules) = l.rules
         [] e.op = "list" -> EnumOK(r, AllRules(s), e.stop)
         [] e.op = "polrange" -> IF Known2(s, e.key) THEN ~r.err /\ EnumOK(r, RulesOf(s, e.key), e.stop) ELSE r.err
         [] e.op = "distinct" -> IF Known2(s, e.key)
                                 THEN IF \E x \in RulesOf(s, e.key) : \E i \in 1..Len(e.cols) : e.cols[i] >= Len(x) THEN r.err
                                      ELSE /\ ~r.err /\ NoDuplicates(r.rules)
                                           /\ ToSet(r.rules) = {[i \in 1..Len(e.cols) |-> x[e.cols[i] + 1]] : x \in RulesOf(s, e.key)}
                                 ELSE r.err
         [] e.op = "has" -> IF e.key \in DOMAIN s.rms
                            THEN ~r.err /\ r.ok = HasLink(s.rms[e.key], e.u, e.r, IF s.rms[e.key].kind = "rm" THEN << >> ELSE e.d)
                            ELSE r.err
         [] e.op \in {"def", "undef"} -> ~r.err /\ r.ev = << >>
         [] e.op = "place" -> r.err = (e.sec = "m" /\ "none" \in DOMAIN FindM(s, e.m))
         [] e.op = "buildone" -> r.err = ~Built(s, e.key)
         [] e.op = "buildall" -> ~r.err /\ Assert(\A k \in DOMAIN s.w.md : Built(s, k), "buildall")
         [] e.op = "setfn" -> TRUE
         [] e.op = "removefn" -> r.ok = (e.name \in DOMAIN s.w.fns)
         [] e.op = "known" -> r.ok = (e.key \in InForce(s, e.sec))
         [] e.op = "describe" -> /\ SameText(r.text, Text(s))
                                 /\ e.again => (r.err = ~CanReload(s) /\ (~r.err => SameText(r.again, Text(s))))
         [] e.op = "reload" -> r.err = ~CanReload(s)
         [] e.op = "refuse" -> r.err /\ r.ev = << >>
         [] OTHER -> FALSE
(* for the report *)
EngineExpected(s, e) ==
  CASE e.op \in {"add", "addrules", "load"} -> Run(s, "add", IF e.op = "add" THEN <<e.rule>> ELSE e.rules, 1).ev
    [] e.op \in {"remove", "removerules"} -> Run(s, "del", IF e.op = "remove" THEN <<e.rule>> ELSE e.rules, 1).ev
    [] e.op = "enforce" -> LET c == CtxOf(s, e) IN IF Unusable(c) THEN "error" ELSE Decide(s, c.m, c.r, e.vals, c.e)
    [] e.op \in {"filter", "range"} -> LET c == CtxOf(s, e) IN IF Unusable(c) THEN "error" ELSE Listing(s, c.m, c.r, e.vals)
    [] e.op \in {"list", "polrange", "distinct"} -> AllRules(s)
    [] e.op = "describe" -> Text(s)
    [] OTHER -> "see specification"
=============================================================================
