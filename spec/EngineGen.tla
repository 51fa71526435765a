----------------------------- MODULE EngineGen -----------------------------
(* spec -> code: behaviours of small enforcers with the replies the specification demands.    *)
(* Two kinds of universes:                                                                 *)
(*   graphs   all transitions of the state graph, each reached by the shortest behaviour for  *)
(*            (state, last K changes), followed by every question about the state             *)
(*   terms    every matcher expression of a class, each with a fixed script                   *)
EXTENDS EngineSteps, Words, Json
CONSTANTS Universe, K
VARIABLES s, hist

Vals(xs) == [i \in 1..Len(xs) |-> S(xs[i])]
Def(pol, ast, st) == [pol |-> pol, ast |-> ast, st |-> st, text |-> ""]
Q(m, e) == [m |-> m, r |-> "", e |-> e, st |-> 1]
Named(n) == [k |-> "named", name |-> n]
Default == [k |-> "def"]
Filter(m, xs) == [op |-> "filter", q |-> Q(m, ""), vals |-> Vals(xs)]
Walk(m, xs, stop) == [op |-> "range", q |-> Q(m, ""), vals |-> Vals(xs), stop |-> stop]
Enforce(m, e, xs) == [op |-> "enforce", q |-> Q(m, e), vals |-> Vals(xs)]
Nothing == [x \in {} |-> 0]
Base == [op |-> "init", p |-> [p |-> [cols |-> <<"sub", "obj">>, eft |-> 0]], r |-> [r |-> <<"sub", "obj">>], g |-> Nothing,
         e |-> [e |-> "some", e2 |-> "nodeny", e3 |-> "both"], m |-> [m |-> Def("p", Eq(R("sub"), P("sub")), 1)],
         srank |-> Nothing, rx |-> << >>, rxs |-> Nothing, subs |-> Nothing, objs |-> Nothing, fns |-> Nothing,
         texts |-> Nothing, nums |-> Nothing, st |-> 1, ini |-> FALSE]
Seqs(set) == SetToSeq(set)
Prod(key, A, B) == {<<key, a, b>> : a \in A, b \in B}
Edits(rules) == [op : {"add", "remove"}, rule : rules]
RG == [kind |-> "rm", limit |-> 10, nm |-> << >>]

(* ---- expressions ---- *)
Atoms == << Eq(R("sub"), P("sub")), Eq(P("obj"), R("obj")), Ne(P("act"), Lit("a")), Ne(P("sub"), R("obj")), Eq(R("obj"), R("act")), <<"const", "T">> >>
Leaves(k) == {Atoms[i] : i \in 1..k}
RECURSIVE LeavesOf(_)
LeavesOf(t) == CASE t[1] \in {"and", "or"} -> LeavesOf(t[2]) \o LeavesOf(t[3]) [] t[1] = "not" -> LeavesOf(t[2]) [] OTHER -> <<t>>
\* the first leaves are the first atoms in their order
Canonical(t) == LET l == LeavesOf(t) IN \A i \in 1..Len(l) : \E j \in 1..Len(Atoms) : l[i] = Atoms[j] /\ (j = 1 \/ \E k \in 1..(i - 1) : l[k] = Atoms[j - 1])
Terns == {<<"tern", a, b, c>> : a, b, c \in Leaves(4)}
\* conditions on several columns at once
Pairs == {<<"tern", a, b, c>> : a, c \in Leaves(1), b \in Leaves(3)} \cup {<<"not", Or(a, b)>> : a, b \in Leaves(3)} \cup {<<"not", And(a, b)>> : a, b \in Leaves(3)}
Exprs == CASE Universe = "expr" -> UNION {Trees(Leaves(6), n, m) : n \in 1..2, m \in 0..2} \cup Terns \cup UNION {Trees(Leaves(5), 3, m) : m \in 0..K}
           [] Universe = "expr4" -> {t \in UNION {Trees(Leaves(3), 4, m) : m \in 0..K} : Canonical(t)}
           [] Universe = "stages" -> {And(x, y) : x \in Pairs, y \in Leaves(5)} \cup {And(x, y) : y \in Pairs, x \in Leaves(3)} \cup {Or(And(x, y), And(x, z)) : x \in Pairs, y, z \in Leaves(3)}
           [] OTHER -> {}
AB == {"a", "b"}
Cube == {<<"p", a, b, c>> : a, b, c \in AB}
Even == {x \in Cube : Cardinality({i \in 2..4 : x[i] = "a"}) % 2 = 0}
\* texts which read the same when several of them are joined in another order: a, a.a and a.a, a
Doubles == << [a |-> "b", b |-> "b:b"], [a |-> "a", b |-> "a,a"], Nothing, [a |-> "a", b |-> "aa"], [a |-> "a,a", b |-> "a"] >>
ExprInit(t, st) == [Base EXCEPT !.p = [p |-> [cols |-> <<"sub", "obj", "act">>, eft |-> 0]], !.r = [r |-> <<"sub", "obj", "act">>], !.m = [m |-> Def("p", t, st)], !.st = st, !.texts = Doubles[1 + (st % Len(Doubles))]]
Q1 == <<"a", "a", "a">>
Q2 == <<"a", "b", "a">>
Script == << [op |-> "addrules", rules |-> Seqs(Cube)], Filter(Default, Q1), Filter(Default, Q2), Enforce(Default, "e2", Q1),
             [op |-> "removerules", rules |-> Seqs(Even)], Filter(Default, Q2), Enforce(Default, "", Q1),
             [op |-> "removerules", rules |-> Seqs(Cube \ Even)], Filter(Default, Q1), Enforce(Default, "", Q1),
             [op |-> "add", rule |-> <<"p", "a", "b", "a">>], Filter(Default, Q1), Enforce(Default, "", Q2) >>

(* ---- graphs ---- *)
Efts == {"allow", "deny", "other", ""}
SubEft == [Base EXCEPT !.p = [p |-> [cols |-> <<"sub", "eft">>, eft |-> 2]], !.r = [r |-> <<"sub">>], !.texts = [other |-> "maybe"]]
EftSub == [SubEft EXCEPT !.p = [p |-> [cols |-> <<"eft", "sub">>, eft |-> 1]], !.m = [m |-> Def("p", Or(Eq(R("sub"), P("sub")), Eq(P("sub"), Lit("b"))), 1)]]
G(a, b) == <<"g", "g", <<a, b>>>>
Hist == [Base EXCEPT !.g = [g |-> RG],
  !.m = [m |-> Def("p", And(Eq(R("sub"), P("sub")), Eq(R("obj"), P("obj"))), 1),
         m2 |-> Def("p", Or(G(R("sub"), P("sub")), Eq(R("obj"), P("obj"))), 1),
         m3 |-> Def("p", Or(Or(Eq(R("sub"), P("sub")), Eq(R("obj"), P("obj"))), And(Eq(P("sub"), Lit("b")), Eq(P("obj"), R("obj")))), 1),
         m4 |-> Def("g", Eq(<<"p", "g", "user">>, R("sub")), 1),
         m5 |-> Def("p", And(Not(Eq(R("sub"), P("sub"))), Ne(P("obj"), Lit("y"))), 1),
         m6 |-> Def("p", Eq(R("sub"), R("sub")), 1),
         m7 |-> Def("p", And(Eq(R("sub"), P("sub")), G(P("sub"), P("obj"))), 1)]]
HistP == Prod("p", AB, {"x", "y"})
HistG == {<<"g", "a", "b">>, <<"g", "b", "x">>}
Held == [k |-> "held", i |-> 1]
HistQ == LET ms == {Named(n) : n \in DOMAIN Hist.m} \cup {Held} IN
         Seqs({Filter(m, xs) : m \in ms, xs \in {<<"a", "x">>, <<"b", "y">>}})
         \o Seqs({Enforce(Named(n), e, <<"a", "x">>) : n \in {"m", "m2", "m3", "m7"}, e \in {"e", "e2"}})
         \o << [op |-> "list", stop |-> 0], [op |-> "has", key |-> "g", u |-> "a", r |-> "x", d |-> << >>] >>
Fail == [SubEft EXCEPT !.fns = [f1 |-> << <<<<"a">>, "T">>, <<<<"b">>, "F">>, <<<<"c">>, "E">>, <<<<"d">>, "P">> >>],
  !.m = [m |-> Def("p", F(P("sub")), 1),
         m2 |-> Def("p", And(F(P("sub")), Eq(R("sub"), Lit("u"))), 1),
         m3 |-> Def("p", And(Eq(R("sub"), Lit("u")), F(P("sub"))), 1),
         m4 |-> Def("p", Or(F(P("sub")), Eq(P("sub"), R("sub"))), 1),
         m5 |-> Def("p", Or(Eq(P("sub"), R("sub")), F(P("sub"))), 1),
         m6 |-> Def("p", Not(F(P("sub"))), 1),
         m7 |-> Def("p", <<"tern", Eq(P("sub"), R("sub")), <<"const", "T">>, F(P("sub"))>>, 1),
         m8 |-> Def("p", And(Ne(P("sub"), Lit("c")), F(P("sub"))), 1)]]
FailRules == Prod("p", {"a", "c"}, {"allow", "deny"}) \cup {<<"p", "b", "allow">>, <<"p", "d", "deny">>}
FailQ == Seqs({Enforce(Named(n), e, <<x>>) : n \in DOMAIN Fail.m, e \in {"e", "e2", "e3"}, x \in {"c", "u"}})
         \o Seqs({Filter(Named(n), <<x>>) : n \in DOMAIN Fail.m, x \in {"c", "u"}})
\* rules which lack a column that a stage asks for, next to rules whose columns there read like the whole of them
GP(x) == <<"p", "g", x>>
Missing == [Base EXCEPT !.g = [g |-> [RG EXCEPT !.kind = "dm"]],
  !.m = [m |-> Def("g", And(Ne(GP("domain"), GP("role")), Eq(GP("user"), R("sub"))), 1),
         m2 |-> Def("g", And(<<"in", R("obj"), <<GP("domain"), Lit("x"), GP("domain")>>>>, Ne(GP("user"), R("obj"))), 1),
         m3 |-> Def("g", Or(And(Eq(GP("domain"), R("sub")), Ne(GP("user"), R("obj"))), And(Eq(GP("user"), GP("domain")), Eq(GP("role"), R("obj")))), 1)]]
MissingRules == {<<"g", "a", "b">>, <<"g", "b", "b", "a">>, <<"g", "a", "a">>, <<"g", "a", "b", "a">>, <<"g", "b", "a", "a">>}
MissingQ == Seqs({Filter(Named(n), xs) : n \in DOMAIN Missing.m, xs \in {<<"a", "b">>, <<"b", "a">>, <<"c", "a">>}})
Sets == [Base EXCEPT !.p = [p |-> [cols |-> <<"sub", "obj">>, eft |-> 0], p2 |-> [cols |-> <<"sub", "obj">>, eft |-> 0]], !.g = [g |-> RG],
                     !.texts = [comma |-> ",", ab |-> "a,a"]]
SetRules == {<<"p", "a", "">>, <<"p", "", "a">>, <<"p", "comma", "a">>, <<"p", "a", "ab">>, <<"p", "ab", "a">>, <<"p2", "a", "">>, <<"g", "a", "">>}
Unusual == {<<"p9", "a", "b">>, <<"g", "a">>, <<"g">>, << >>, <<"g9", "a", "b">>, <<"x", "a", "b">>}
SetQ == << [op |-> "list", stop |-> 0], [op |-> "list", stop |-> 2], [op |-> "polrange", key |-> "p", stop |-> 0], [op |-> "polrange", key |-> "p2", stop |-> 0],
           [op |-> "polrange", key |-> "g", stop |-> 0], [op |-> "polrange", key |-> "p9", stop |-> 0],
           [op |-> "distinct", key |-> "p", cols |-> <<0>>], [op |-> "distinct", key |-> "p", cols |-> <<1, 0>>], [op |-> "distinct", key |-> "p", cols |-> <<2>>],
           [op |-> "distinct", key |-> "g", cols |-> <<0>>], [op |-> "has", key |-> "g", u |-> "a", r |-> "", d |-> << >>] >>
M1 == [pol |-> "p", ast |-> Eq(R("sub"), P("sub")), text |-> "r.sub == p.sub"]
M2 == [pol |-> "p", ast |-> And(F(P("sub")), Eq(R("obj"), P("obj"))), text |-> "f1(p.sub) && r.obj == p.obj"]
Defs == [Base EXCEPT !.fns = [f1 |-> << <<<<"a">>, "T">> >>], !.e = [e |-> "some", e2 |-> "nodeny"]]
DefEvents ==
  {[op |-> "def", sec |-> "m", key |-> "m", pol |-> x.pol, ast |-> x.ast, text |-> x.text] : x \in {M1, M2}}
  \cup {[op |-> "undef", sec |-> x, key |-> x] : x \in {"m", "e", "r", "p"}}
  \cup {[op |-> "buildone", key |-> "m"]}
  \cup {[op |-> o, sec |-> "e", key |-> "e", kind |-> x, st |-> 1] : o \in {"def"}, x \in {"some", "nodeny"}}
  \cup {[op |-> "place", sec |-> "m", key |-> "m", m |-> [k |-> "expr", st |-> 1, pol |-> "p", ast |-> Eq(R("obj"), P("obj")), text |-> ""]]}
  \cup {[op |-> "def", sec |-> "r", key |-> "r", cols |-> x] : x \in {<<"sub", "obj">>, <<"obj", "sub">>}}
  \cup {[op |-> "setfn", name |-> "f1", rows |-> << <<<<x>>, "T">> >>] : x \in {"a", "b"}} \cup {[op |-> "removefn", name |-> "f1"]}
DefQ == Seqs({Enforce(Default, e, xs) : e \in {"", "e2"}, xs \in {<<"a", "x">>, <<"b", "y">>, <<"y", "b">>}})
        \o Seqs({Filter(Default, xs) : xs \in {<<"a", "x">>, <<"y", "b">>}})
        \o Seqs({[op |-> "known", sec |-> x, key |-> CASE x \in {"m", "md"} -> "m" [] x \in {"e", "ed"} -> "e" [] OTHER -> "r"] : x \in {"m", "md", "e", "ed", "r"}})
StopQ == Seqs({Walk(Named(n), <<"a", "x">>, k) : n \in DOMAIN Hist.m, k \in 0..3})
         \o Seqs({[op |-> "list", stop |-> k] : k \in 0..4} \cup {[op |-> "polrange", key |-> key, stop |-> k] : k \in 1..2, key \in {"p", "g"}})
Bulk(rules) == [op : {"addrules", "removerules"}, rules : rules]
U == CASE Universe = "decide" -> [init |-> SubEft, start |-> << >>, events |-> Edits(Prod("p", AB, Efts)), ask |-> Seqs({Enforce(Default, e, <<x>>) : e \in {"", "e2", "e3"}, x \in {"a", "b", "c"}})]
       [] Universe = "decide2" -> [init |-> EftSub, start |-> << >>, events |-> Edits(Prod("p", Efts, AB)), ask |-> Seqs({Enforce(Default, e, <<x>>) : e \in {"", "e2", "e3"}, x \in {"a", "c"}})]
       [] Universe = "history" -> [init |-> Hist, start |-> << [op |-> "build", m |-> [k |-> "expr", st |-> 1, pol |-> "p", ast |-> Hist.m.m3.ast, text |-> ""]] >>,
                                   events |-> Edits(HistP \cup HistG) \cup [op : {"clear"}, key : {"p", "g", "p9"}]
                                              \cup Bulk({Seqs(HistP), <<<<"p", "a", "x">>, <<"g", "a", "b">>, <<"p", "a", "x">>>>}) \cup [op : {"load"}, rules : {Seqs(HistG \cup {<<"p", "b", "y">>})}],
                                   ask |-> HistQ]
       [] Universe = "query" -> [init |-> Hist, start |-> << [op |-> "build", m |-> [k |-> "expr", st |-> 1, pol |-> "p", ast |-> Hist.m.m3.ast, text |-> ""]] >>,
                                   events |-> Edits(HistP \cup HistG), ask |-> HistQ \o Reverse(HistQ)]
       [] Universe = "fail" -> [init |-> Fail, start |-> << >>, events |-> Edits(FailRules), ask |-> FailQ]
       [] Universe = "missing" -> [init |-> Missing, start |-> << >>, events |-> Edits(MissingRules), ask |-> MissingQ]
       [] Universe = "set" -> [init |-> Sets, start |-> << >>, events |-> Edits(SetRules \cup Unusual) \cup [op : {"clear"}, key : {"p", "g", "p9", "g9", ""}]
                                              \cup Bulk({<<<<"p", "a", "">>, <<"p", "a", "">>, <<"p2", "a", "">>>>, <<<<"p", "", "a">>, <<"p9", "a", "b">>, <<"p2", "a", "">>>>}), ask |-> SetQ]
       [] Universe = "defs" -> [init |-> Defs, start |-> << [op |-> "addrules", rules |-> << <<"p", "a", "x">>, <<"p", "b", "y">>, <<"p", "y", "a">> >>] >>, events |-> DefEvents, ask |-> DefQ]
       [] Universe = "stop" -> [init |-> Hist, start |-> << >>, events |-> Edits(HistP \cup HistG), ask |-> StopQ]
       [] OTHER -> [init |-> Base, start |-> << >>, events |-> {}, ask |-> << >>]

(* ---- replies ---- *)
Tell(ev) == [i \in 1..Len(ev) |-> [t |-> ev[i].t, rule |-> ev[i].rule, seen |-> TRUE]]
Fine == [err |-> FALSE]
Reply(st, e) ==
  CASE e.op \in {"add", "remove"} -> LET x == Run(st, IF e.op = "add" THEN "add" ELSE "del", <<e.rule>>, 1) IN [ok |-> x.ev # << >>, err |-> x.err, ev |-> Tell(x.ev)]
    [] e.op \in {"addrules", "removerules", "load"} -> LET x == Run(st, IF e.op = "removerules" THEN "del" ELSE "add", e.rules, 1) IN [err |-> x.err, ev |-> Tell(x.ev)]
    [] e.op = "clear" -> [err |-> ~Known2(st, e.key), ev |-> << >>]
    [] e.op = "build" -> [err |-> "none" \in DOMAIN FindM(st, e.m)]
    [] e.op = "enforce" ->
         LET c == Context(st, e.q) IN
         IF Unusable(c) THEN [dec |-> FALSE, err |-> TRUE]
         ELSE LET d == Decide(st, c.m, c.r, e.vals, c.e) IN
              [any |-> Seqs({[dec |-> x, err |-> FALSE] : x \in d.dec} \cup IF d.err THEN {[dec |-> FALSE, err |-> TRUE]} ELSE {})]
    [] e.op \in {"filter", "range"} ->
         LET c == Context(st, e.q)
             l == IF Unusable(c) THEN [ok |-> FALSE, rules |-> {}, err |-> TRUE] ELSE Listing(st, c.m, c.r, e.vals) IN
         [among |-> l.rules, complete |-> l.ok, mayfail |-> l.err, stop |-> IF e.op = "range" THEN e.stop ELSE 0]
    [] e.op = "list" -> [each |-> AllRules(st), stop |-> e.stop]
    [] e.op = "polrange" -> IF Known2(st, e.key) THEN [each |-> RulesOf(st, e.key), stop |-> e.stop] ELSE [err |-> TRUE, rules |-> {}, calls |-> 0]
    [] e.op = "distinct" -> IF ~Known2(st, e.key) \/ \E x \in RulesOf(st, e.key) : \E i \in 1..Len(e.cols) : e.cols[i] >= Len(x)
                            THEN [err |-> TRUE, rules |-> {}]
                            ELSE [err |-> FALSE, rules |-> {[i \in 1..Len(e.cols) |-> x[e.cols[i] + 1]] : x \in RulesOf(st, e.key)}]
    [] e.op = "has" -> [err |-> FALSE, ok |-> HasLink(st.rms[e.key], e.u, e.r, e.d)]
    [] e.op \in {"def", "undef"} -> [err |-> FALSE, ev |-> << >>]
    [] e.op = "place" -> [err |-> e.sec = "m" /\ "none" \in DOMAIN FindM(st, e.m)]
    [] e.op = "buildone" -> [err |-> ~Built(st, e.key)]
    [] e.op = "removefn" -> [err |-> FALSE, ok |-> e.name \in DOMAIN st.w.fns]
    [] e.op = "known" -> [err |-> FALSE, ok |-> e.key \in InForce(st, e.sec)]
    [] OTHER -> Fine
RECURSIVE Play(_, _, _)
Play(st, es, h) == IF es = << >> THEN [s |-> st, h |-> h]
                   ELSE Play(EngineStep(st, Head(es)), Tail(es), Append(h, Head(es) @@ [res |-> Reply(st, Head(es))]))

IsTerm == Universe \in {"expr", "expr4", "stages"}
GInit == IF IsTerm THEN \E t \in Exprs, st \in {1, 2, 73} : s = EngineInit(ExprInit(t, st)) /\ hist = << ExprInit(t, st) >>
         ELSE LET x == Play(EngineInit(U.init), U.start, << U.init >>) IN s = x.s /\ hist = x.h
GNext == IF IsTerm THEN Len(hist) = 1 /\ LET x == Play(s, Script, hist) IN s' = x.s /\ hist' = x.h
         ELSE \E e \in U.events : s' = EngineStep(s, e) /\ hist' = Append(hist, e @@ [res |-> Reply(s, e)])
GSpec == GInit /\ [][GNext]_<<s, hist>>
First == 1 + Len(U.start)
GView == IF IsTerm THEN <<s, hist>> ELSE <<s, SubSeq(hist, IF Len(hist) - K < First THEN First + 1 ELSE Len(hist) - K + 1, Len(hist))>>
Emit == PrintT(ToJson(IF IsTerm THEN hist' ELSE Play(s', U.ask, hist').h))
=============================================================================
