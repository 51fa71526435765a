----------------------------- MODULE Interleave -----------------------------
(* Several questions at the same time about a fixed policy. A question looks at one rule      *)
(* after the other; while it evaluates a rule it calls a function of the caller, there        *)
(* another question may go on. The answer to each of them has to be the answer it gets alone. *)
(* Every order in which the questions go on is a schedule, which the harness follows in the   *)
(* real code: the functions, callbacks and effectors it supplies wait until it is their turn. *)
(*                                                                                           *)
(* In the code a question keeps what it works on for itself. Wrong variants share             *)
(*   req    the request                                                                      *)
(*   rule   the rule which is evaluated                                                       *)
(*   found  the list of the rules found                                                       *)
EXTENDS EngineGen
CONSTANT Variant
VARIABLES loc,   (* per question: next rule, the rule and request it works on, the rules found *)
          mem,   (* the same, shared *)
          sched  (* who went on *)

(* ---- scenarios: a policy and questions which are asked at the same time ---- *)
Fn2(a, b) == <<"fn", "f2", <<a, b>>>>
Sub2 == Fn2(R("sub"), P("sub"))
World0 == [Base EXCEPT !.p = [p |-> [cols |-> <<"sub", "obj">>, eft |-> 0], p2 |-> [cols |-> <<"sub", "rule">>, eft |-> 0]],
  !.g = [g |-> RG],
  !.fns = [f1 |-> << <<<<"a">>, "T">>, <<<<"x">>, "T">> >>, f2 |-> << <<<<"a", "a">>, "T">>, <<<<"b", "b">>, "T">>, <<<<"b", "a">>, "T">> >>],
  !.subs = [sub0 |-> And(F(R("sub")), Eq(R("obj"), Lit("x"))), sub1 |-> And(Not(F(R("sub"))), Eq(R("sub"), Lit("b")))],
  !.m = [m |-> Def("p", And(Sub2, Eq(R("obj"), P("obj"))), 1),
         m2 |-> Def("p", Or(Eq(R("sub"), P("sub")), And(F(P("obj")), Eq(R("obj"), P("obj")))), 1),
         m3 |-> Def("p2", <<"eval", <<"p", "p2", "rule">>>>, 1),
         m4 |-> Def("p", And(F(P("sub")), G(R("sub"), P("sub"))), 1),
         m5 |-> Def("p2", And(Eq(R("sub"), <<"p", "p2", "sub">>), <<"eval", <<"p", "p2", "rule">>>>), 1)]]
Start0 == << [op |-> "addrules", rules |-> << <<"p", "a", "x">>, <<"p", "b", "y">>, <<"p2", "a", "sub0">>, <<"p2", "b", "sub1">>, <<"g", "b", "a">> >>] >>
Ask(m, e, xs, op) == [op |-> op, q |-> Q(m, e), vals |-> Vals(xs)] @@ (IF op = "range" THEN [stop |-> 0] ELSE Nothing)
Own2(a) == [k |-> "expr", st |-> 1, pol |-> "p", ast |-> a, text |-> ""]
AX == <<"a", "x">>
Box == <<"b", "x">>
Bob == <<"b", "y">>
QS ==
  CASE Universe = "one" -> <<Ask(Default, "", AX, "filter"), Ask(Default, "", Bob, "filter"), Ask(Default, "e2", Box, "enforce")>>
    [] Universe = "eval" -> <<Ask(Named("m3"), "", AX, "filter"), Ask(Named("m3"), "", Bob, "filter"), Ask(Named("m5"), "=two", Bob, "enforce")>>
    [] Universe = "mix" -> <<Ask(Named("m2"), "=none", Box, "enforce"), Ask(Named("m2"), "", AX, "range"), Ask(Named("m3"), "", AX, "filter")>>
    [] Universe = "adhoc" -> <<Ask(Own2(And(Sub2, Eq(R("obj"), P("obj")))), "", AX, "filter"),
                                  Ask(Own2(And(Sub2, Ne(R("obj"), P("obj")))), "", Box, "filter"), Ask(Default, "=veto", Bob, "enforce")>>
    [] Universe = "roles" -> <<Ask(Named("m4"), "", Box, "filter"), Ask(Named("m4"), "=two", AX, "enforce"), Ask(Named("m2"), "", Bob, "range")>>

Cx(i) == Context(s, QS[i].q)
Order(i) == SetToSeq(RulesOf(s, Cx(i).m.pol))
Rules(i) == Len(Order(i))
Idle == [at |-> 0, rule |-> << >>, req |-> << >>, found |-> {}]
(* evaluate the rule in work with what is in the registers, then take up the next one *)
Judged(i, l, m) ==
  LET rule == IF Variant = "rule" THEN m.rule ELSE l.rule
      req == IF Variant = "req" THEN m.req ELSE l.req
      hit == Ev(Env(s, Cx(i).m, Cx(i).r, req, rule), Cx(i).m.ast).v = "T"
      add == IF hit THEN {rule} ELSE {} IN
  [loc |-> [l EXCEPT !.found = @ \cup add], mem |-> [m EXCEPT !.found = @ \cup add]]
Taken(i, l, m) ==
  IF l.at = Rules(i) THEN [loc |-> [l EXCEPT !.at = @ + 1], mem |-> m]
  ELSE LET x == [at |-> l.at + 1, rule |-> Order(i)[l.at + 1], req |-> QS[i].vals] IN
       [loc |-> x @@ [found |-> l.found], mem |-> [m EXCEPT !.rule = x.rule, !.req = x.req]]
Resume(i) == /\ loc[i].at <= Rules(i)
             /\ LET a == IF loc[i].at = 0 THEN [loc |-> loc[i], mem |-> mem] ELSE Judged(i, loc[i], mem)
                    b == Taken(i, a.loc, a.mem) IN
                loc' = [loc EXCEPT ![i] = b.loc] /\ mem' = b.mem
             /\ sched' = Append(sched, i)
             /\ UNCHANGED <<s, hist>>
Done == \A i \in 1..Len(QS) : loc[i].at > Rules(i)
Found(i) == IF Variant = "found" THEN mem.found ELSE loc[i].found
(* the answers are those of the questions asked alone *)
Alone == Done => \A i \in 1..Len(QS) : Found(i) = {Tail(x) : x \in Listing(s, Cx(i).m, Cx(i).r, QS[i].vals).rules}

IInit == /\ LET x == Play(EngineInit(World0), Start0, << World0 >>) IN s = x.s /\ hist = x.h
         /\ loc = [i \in 1..Len(QS) |-> Idle] /\ mem = Idle /\ sched = << >>
INext == \E i \in 1..Len(QS) : Resume(i)
ISpec == IInit /\ [][INext]_<<s, hist, loc, mem, sched>>
Together == [op |-> "together", qs |-> QS, sched |-> sched', res |-> [together |-> [i \in 1..Len(QS) |-> Reply(s, QS[i])]]]
Show == Done' => PrintT(ToJson(Append(hist, Together)))
=============================================================================
