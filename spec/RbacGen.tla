------------------------------ MODULE RbacGen ------------------------------
(* spec -> code: all transitions of a small role manager, each reached by the shortest     *)
(* behaviour for (state, last K operations), followed by every question about the state.    *)
EXTENDS RbacSteps, Json
CONSTANTS Universe, K
VARIABLES s, hist

U == CASE Universe = "reach" ->
            [kind |-> "rm", limit |-> 3, names |-> {"a", "b", "c", "d"}, doms |-> {<<>>}, ask |-> {<<>>},
             links |-> {<<"a","b">>, <<"b","c">>, <<"c","d">>, <<"d","a">>, <<"a","c">>, <<"a","a">>}, nm |-> {}, dm |-> {}]
       [] Universe = "domain" ->
            [kind |-> "dm", limit |-> 10, names |-> {"a", "b", "c"},
             doms |-> {<<>>, <<"d">>, <<"d", "e">>, <<"e">>}, ask |-> {<<>>, <<"d">>, <<"d", "e">>, <<"e">>, <<"e", "d">>},
             links |-> {<<"a","b">>, <<"b","c">>}, nm |-> {}, dm |-> {}]
       [] Universe = "limit" ->
            [kind |-> "dm", limit |-> 4, names |-> {"a", "b", "c", "d"},
             doms |-> {<<>>, <<"d">>}, ask |-> {<<>>, <<"d">>},
             links |-> {<<"a","b">>, <<"b","c">>, <<"c","d">>}, nm |-> {}, dm |-> {}]
       [] Universe = "npat" ->
            [kind |-> "rm", limit |-> 10, names |-> {"u", "v", "r", "~P", "~R"}, doms |-> {<<>>}, ask |-> {<<>>},
             links |-> {<<"u","~R">>, <<"~P","r">>, <<"~P","~R">>, <<"v","~P">>, <<"r","v">>}, nm |-> {<<"u","~P">>, <<"r","~R">>}, nm2 |-> {<<"v","~P">>, <<"u","~R">>}, dm |-> {}]
       [] Universe = "dpat" ->
            [kind |-> "dm", limit |-> 10, names |-> {"a", "b", "c"},
             doms |-> {<<>>, <<"d">>, <<"~P">>, <<"~Q">>, <<"e">>}, ask |-> {<<>>, <<"d">>, <<"e">>, <<"f">>},
             links |-> {<<"a","b">>}, nm |-> {}, dm |-> {<<"d","~P">>, <<"d","~Q">>, <<"e", "~Q">>, <<"f", "~P">>}, dm2 |-> {<<"d","~Q">>, <<"e","~P">>}]
       [] Universe = "dpat2" ->
            [kind |-> "dm", limit |-> 10, names |-> {"a", "b"},
             doms |-> {<<"d">>, <<"~P", "s">>, <<"d", "s">>, <<"d", "~P">>}, ask |-> {<<>>, <<"d">>, <<"d", "s">>, <<"s">>, <<"d", "d">>},
             links |-> {<<"a","b">>}, nm |-> {}, dm |-> {<<"d","~P">>}]
Pairs(rel) == SetToSeq({<<p[1], p[2]>> : p \in rel})
\* a second match relation
NM2 == IF "nm2" \in DOMAIN U THEN U.nm2 ELSE {}
DM2 == IF "dm2" \in DOMAIN U THEN U.dm2 ELSE {}
InitEv == [op |-> "init", kind |-> U.kind, limit |-> U.limit,
           nmk |-> <<"table", "table">>, nms |-> <<Pairs(U.nm), Pairs(NM2)>>, dmk |-> <<"table", "table">>, dms |-> <<Pairs(U.dm), Pairs(DM2)>>]
Changes == [op : {"add", "del"}, u : {l[1] : l \in U.links}, r : {l[2] : l \in U.links}, d : U.doms]
Events == {e \in Changes : <<e.u, e.r>> \in U.links}
          \cup (IF U.nm = {} THEN {} ELSE [op : {"setnm"}, i : {0, 1} \cup IF NM2 = {} THEN {} ELSE {2}])
          \cup (IF U.dm = {} THEN {} ELSE [op : {"setdm"}, i : {0, 1} \cup IF DM2 = {} THEN {} ELSE {2}])
          \cup [op : {"clear"}]
Reply(st, e) ==
  LET m == st.m IN
  CASE e.op = "add" -> [ok |-> Link(e.u, e.r, e.d) \notin m.links, err |-> FALSE]
    [] e.op = "del" -> [ok |-> Link(e.u, e.r, e.d) \in m.links, err |-> FALSE]
    [] e.op = "has" -> [ok |-> HasLink(m, e.u, e.r, e.d), err |-> FALSE]
    [] e.op = "roles" -> [must |-> RolesMust(m, e.u, e.d), may |-> RolesMay(m, e.u, e.d)]
    [] e.op = "users" -> [must |-> UsersMust(m, e.u, e.d), may |-> UsersMay(m, e.u, e.d)]
    [] e.op = "domains" -> [domains |-> IF m.kind = "rm" THEN {} ELSE DomainsOf(m, e.u), err |-> FALSE]
    [] e.op = "alldomains" -> [domains |-> IF m.kind = "rm" THEN {} ELSE AllDomains(m), err |-> FALSE]
    [] e.op = "range" -> [links |-> m.links, err |-> FALSE]
    [] OTHER -> [err |-> FALSE]
Questions == SetToSeq([op : {"has"}, u : U.names, r : U.names, d : U.ask])
             \o SetToSeq([op : {"roles", "users"}, u : U.names, d : U.ask])
             \o SetToSeq([op : {"domains"}, u : U.names]) \o << [op |-> "alldomains"], [op |-> "range", stop |-> 0] >>
Ask(st) == [i \in 1..Len(Questions) |-> Questions[i] @@ [res |-> Reply(st, Questions[i])]]
GInit == s = RbacInit(InitEv) /\ hist = << InitEv >>
GNext == \E e \in Events : s' = RbacStep(s, e) /\ hist' = Append(hist, e @@ [res |-> Reply(s, e)])
GSpec == GInit /\ [][GNext]_<<s, hist>>
GView == <<s.m, SubSeq(hist, IF Len(hist) - K + 1 < 2 THEN 2 ELSE Len(hist) - K + 1, Len(hist))>>
Emit == PrintT(ToJson(hist' \o Ask(s')))

(* ---- properties of the specification ---- *)
M == s.m
\* C06: with no chain limit in the way, membership is the reflexive transitive closure
TransitiveWithinLimit == \A d \in U.ask : \A x, y, z \in U.names :
   HasLink(M, x, y, d) /\ HasLink(M, y, z, d) /\ U.limit = 10 /\ M.nm = {} => HasLink(M, x, z, d)
\* C07: a link of one domain does not matter to another
Isolation == \A d \in U.ask, d2 \in U.doms : \A p \in U.links : LET l == Link(p[1], p[2], d2) IN
   ~DomOK(M, d2, d) => \A x, y \in U.names :
       /\ HasLink(AddLink(M, l), x, y, d) = HasLink(M, x, y, d)
       /\ HasLink(DelLink(M, l), x, y, d) = HasLink(M, x, y, d)
\* C09: removing an inherited link keeps a direct one and vice versa
Independent == \A d \in U.ask : \A p \in U.links :
   /\ (Link(p[1], p[2], d) \in M.links => HasLink(ClearLinks(M), p[1], p[1], d) /\ <<p[1], p[2]>> \in Edges(M, d))
   /\ \A q \in U.doms : DomOK(M, q, d) /\ q # d /\ Link(p[1], p[2], q) \in M.links =>
        <<p[1], p[2]>> \in Edges(DelLink(M, Link(p[1], p[2], d)), d)
\* adding links never takes a membership away, removing never adds one
Monotone == \A e \in {x \in Events : x.op = "add"} : \A d \in U.ask, x, y \in U.names :
   HasLink(M, x, y, d) => HasLink(AddLink(M, Link(e.u, e.r, e.d)), x, y, d)
=============================================================================
