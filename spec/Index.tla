------------------------------- MODULE Index -------------------------------
(* How matcher.go and matcher_def.go find the rules which match: the expression is cut at its    *)
(* logical operators into stages, the rules are kept in a tree with one level per stage, in which  *)
(* rules share a node if the stage cannot tell them apart. The tree has to give the answers of   *)
(* Engine (Listing, Decide) after every sequence of changes.                                 *)
(*   stage  [x, kids]: an expression, and the stages which go on if it is true                  *)
(*   node   [rule, ch]: the rule with which the stage is evaluated, ch: <<stage, key>> -> node     *)
(* Variants, all of which must be refuted:                                                  *)
(*   first      only the first alternative is followed                                      *)
(*   lostand    an alternative forgets the conditions behind it                              *)
(*   keepempty  nodes without rules stay                                                    *)
(*   leafkey    rules which a last stage cannot tell apart share a node                         *)
(*   evalkey    rules share a node although their sub rules read other columns                    *)
(*   concat     the key of a node is the concatenation of the columns                           *)
(*   swallow    errors behind the first stage are not looked at                               *)
(*   noclear    clearing leaves the tree as it is                                           *)
EXTENDS Engine, Words
CONSTANTS Variant, Depth
VARIABLES ast, root, rules
vars == <<ast, root, rules>>

(* ---- stages ---- *)
RECURSIVE Stages(_, _)
Stages(n, rest) ==
  CASE n[1] = "or" -> IF Variant = "first" THEN Stages(n[2], rest) ELSE Stages(n[2], rest) \o Stages(n[3], IF Variant = "lostand" THEN << >> ELSE rest)
    [] n[1] = "and" -> Stages(n[2], Append(rest, n[3]))
    [] OTHER -> << [x |-> n, kids |-> IF rest = << >> THEN << >> ELSE Stages(rest[Len(rest)], SubSeq(rest, 1, Len(rest) - 1))] >>
IsLeaf(st) == st.kids = << >>
RECURSIVE Reads(_)      \* columns of the rule an expression reads, as written
ReadsIn(seq) == FoldLeft(LAMBDA a, x : a \o Reads(x), << >>, seq)
Reads(n) == CASE n[1] = "p" -> <<n[3]>>
              [] n[1] \in {"r", "lit", "const"} -> << >>
              [] n[1] \in {"and", "or", "eq", "ne"} -> Reads(n[2]) \o Reads(n[3])
              [] n[1] \in {"not", "eval"} -> Reads(n[2])
              [] n[1] = "tern" -> Reads(n[2]) \o Reads(n[3]) \o Reads(n[4])
              [] n[1] = "fn" -> ReadsIn(n[3])
RECURSIVE Evals(_)
Evals(n) == CASE n[1] = "eval" -> TRUE
              [] n[1] \in {"and", "or"} -> Evals(n[2]) \/ Evals(n[3])
              [] n[1] = "not" -> Evals(n[2])
              [] n[1] = "tern" -> Evals(n[2]) \/ Evals(n[3]) \/ Evals(n[4])
              [] OTHER -> FALSE

(* ---- the tree ---- *)
Cols == <<"sub", "obj">>
Key(rule, st) ==
  LET a == Reads(st.x) IN
  IF a = << >> \/ (IsLeaf(st) /\ Variant # "leafkey") \/ (Evals(st.x) /\ Variant # "evalkey") THEN rule
  ELSE LET k == [i \in 1..Len(a) |-> rule[IndexIn(Cols, a[i])]] IN
       IF Variant = "concat" THEN << FoldLeft(LAMBDA x, y : x \o y, "", k) >> ELSE k
Node(rule) == [rule |-> rule, ch |-> << >>]
RECURSIVE Insert(_, _, _, _), Delete(_, _, _, _)
Insert(node, kids, rule, i) ==
  IF i > Len(kids) THEN node
  ELSE LET k == <<i, Key(rule, kids[i])>>
           next == IF IsLeaf(kids[i]) THEN Node(rule)
                   ELSE Insert(IF k \in DOMAIN node.ch THEN node.ch[k] ELSE Node(rule), kids[i].kids, rule, 1)
       IN Insert([node EXCEPT !.ch = Upd(@, k, next)], kids, rule, i + 1)
Delete(node, kids, rule, i) ==
  IF i > Len(kids) THEN node
  ELSE LET k == <<i, Key(rule, kids[i])>>
           next == IF k \notin DOMAIN node.ch \/ IsLeaf(kids[i]) THEN node ELSE Delete(node.ch[k], kids[i].kids, rule, 1)
           ch == IF k \notin DOMAIN node.ch THEN node.ch
                 ELSE IF IsLeaf(kids[i]) \/ (DOMAIN next.ch = {} /\ Variant # "keepempty") THEN Rem(node.ch, k)
                 ELSE Upd(node.ch, k, next)
       IN Delete([node EXCEPT !.ch = ch], kids, rule, i + 1)

(* ---- evaluation: operands from left to right, until the value is known ---- *)
RECURSIVE Lr(_, _)
Lr(c, n) == CASE n[1] = "and" -> LET a == Lr(c, n[2]) IN IF a = "T" THEN Lr(c, n[3]) ELSE a
              [] n[1] = "or" -> LET a == Lr(c, n[2]) IN IF a = "F" THEN Lr(c, n[3]) ELSE a
              [] n[1] = "not" -> Kleene(Lr(c, n[2]))
              [] n[1] = "tern" -> LET a == Lr(c, n[2]) IN IF a = "E" THEN a ELSE Lr(c, n[IF a = "T" THEN 3 ELSE 4])
              [] OTHER -> Ev(c, n).v
M == [pol |-> "p", ast |-> ast]
Rq == [key |-> "r", cols |-> Cols]
Nothing == [x \in {} |-> 0]
World == [p |-> [p |-> [cols |-> Cols, eft |-> 0]], r |-> [r |-> Cols], m |-> Nothing, e |-> Nothing, md |-> Nothing, ed |-> Nothing,
          gd |-> Nothing, g |-> Nothing, srank |-> Nothing, rx |-> {}, objs |-> Nothing,
          subs |-> [a |-> Eq(P("obj"), R("obj")), aa |-> Ne(P("obj"), Lit("a"))],
          fns |-> [f1 |-> {<<<<"a">>, "T">>, <<<<"aa">>, "E">>}, f2 |-> {<<<<"a", "aa">>, "T">>}]]
S0 == [EInit(World) EXCEPT !.pol = [p |-> rules]]
RECURSIVE Walk(_, _, _, _)
\* [t: rules found, e: an error was met]
Walk(node, kids, req, deep) ==
  LET at(i) == LET ks == {k \in DOMAIN node.ch : k[1] = i} IN IF ks = {} THEN {Node(<<"", "">>)} ELSE {node.ch[k] : k \in ks}
      one(i, x) == LET v == Lr(Env(S0, M, Rq, req, x.rule), kids[i].x) IN
                   IF v = "E" THEN [t |-> {}, e |-> ~(deep /\ Variant = "swallow")]
                   ELSE IF v = "F" THEN [t |-> {}, e |-> FALSE]
                   ELSE IF IsLeaf(kids[i]) THEN [t |-> {x.rule}, e |-> FALSE] ELSE Walk(x, kids[i].kids, req, TRUE)
      all == UNION {{one(i, x) : x \in at(i)} : i \in 1..Len(kids)}
  IN [t |-> UNION {o.t : o \in all}, e |-> \E o \in all : o.e]

(* ---- changes ---- *)
Values == {"a", "aa"}
Rules == {<<a, b>> : a, b \in Values}
Atoms == {Eq(R("sub"), P("sub")), Eq(P("obj"), R("obj")), <<"fn", "f2", <<P("sub"), P("obj")>>>>, Ne(P("sub"), Lit("a")), F(P("sub")), <<"eval", P("sub")>>}
Some == {Eq(R("sub"), P("sub")), Eq(P("obj"), R("obj")), F(P("sub"))}
Exprs == UNION {Trees(Atoms, n, 0) : n \in 1..2} \cup Trees(Some, 3, 0) \cup Trees(Some, 2, 1)
         \cup {<<"tern", a, b, c>> : a, b, c \in Some} \cup {<<op, <<"tern", a, b, a>>, b>> : op \in {"and", "or"}, a, b \in Some}
         \cup IF Depth > 0 THEN Trees(Atoms, 3, 0) \cup Trees(Some, 3, 1) \cup Trees(Some, 4, 0) ELSE {}
Init == ast \in Exprs /\ root = Node(<<"", "">>) /\ rules = {}
Store(x) == x \notin rules /\ rules' = rules \cup {x} /\ root' = Insert(root, Stages(ast, << >>), x, 1)
Erase(x) == x \in rules /\ rules' = rules \ {x} /\ root' = Delete(root, Stages(ast, << >>), x, 1)
EraseAll == rules # {} /\ rules' = {} /\ root' = IF Variant = "noclear" THEN root ELSE Node(<<"", "">>)
Next == UNCHANGED ast /\ (EraseAll \/ \E x \in Rules : Store(x) \/ Erase(x))
Spec == Init /\ [][Next]_vars

(* ---- the answers ---- *)
Reqs == {<<Str("a"), Str("aa")>>, <<Str("aa"), Str("a")>>}
Lists == \A req \in Reqs :
  LET f == Walk(root, Stages(ast, << >>), req, FALSE)
      l == Listing(S0, M, Rq, req) IN
  rules # {} => IF f.e THEN l.err ELSE l.ok /\ {<<"p">> \o x : x \in f.t} = l.rules
\* every rule allows: the first match decides, or all matches have been visited
Decides == \A req \in Reqs :
  LET f == Walk(root, Stages(ast, << >>), req, FALSE)
      d == Decide(S0, M, Rq, req, "some") IN
  /\ f.e => d.err
  /\ f.t # {} => TRUE \in d.dec
  /\ f.t = {} /\ ~f.e => FALSE \in d.dec
\* a tree depends on the rules only, except for the rule which stands for a node
RECURSIVE Shape(_)
Shape(node) == [k \in DOMAIN node.ch |-> Shape(node.ch[k])]
Canonical == rules = {} => Shape(root) = << >>
=============================================================================
