----------------------------- MODULE FnTable -----------------------------
(* Which function a name stands for. Every model has its own table: the built-in functions and   *)
(* those registered for all models when it was made, then changed by SetFunction and             *)
(* RemoveFunction of this model. A function is known by its number, 0 is the built-in one.      *)
EXTENDS Builtins
\* glob: name -> number, registered for all models; tabs: the table of each model
Built == [n \in {"globMatch"} |-> 0]
FInit == [glob |-> [x \in {} |-> 0], tabs |-> << >>]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]
With(f, n, v) == Over([x \in {n} |-> v], f)
Without(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
FStep(s, e) ==
  CASE e.op = "global" -> [s EXCEPT !.glob = With(@, e.name, e.id), !.tabs = IF Variant = "live" THEN [m \in DOMAIN @ |-> With(@[m], e.name, e.id)] ELSE @]
    [] e.op = "model" -> [s EXCEPT !.tabs = Append(@, IF Variant = "builtin" THEN Over(Built, s.glob) ELSE Over(s.glob, Built))]
    [] e.op = "setfn" -> IF Variant = "everywhere" THEN [s EXCEPT !.tabs = [m \in DOMAIN @ |-> With(@[m], e.name, e.id)]] ELSE [s EXCEPT !.tabs[e.i] = With(@, e.name, e.id)]
    [] e.op = "removefn" -> [s EXCEPT !.tabs[e.i] = Without(@, e.name)]
    [] OTHER -> s
\* asked: name(x, "*") for x = "1", "2", "3"; the function number k says x = "k", the built-in one says yes
Answers(s, e) == LET t == s.tabs[e.i] IN
  IF e.name \notin DOMAIN t THEN <<"E", "E", "E">> ELSE [x \in 1..3 |-> Tf(t[e.name] = 0 \/ t[e.name] = x)]
RECURSIVE FReply(_, _)
FReply(s, e) ==
  CASE e.op = "together" -> [results |-> [i \in 1..Len(e.asks) |-> FReply(s, e.asks[i])]]
    [] e.op = "ask" -> [vals |-> Answers(s, e)]
    [] e.op = "removefn" -> [had |-> e.name \in DOMAIN s.tabs[e.i]]
    [] e.op = "match" -> [vals |-> [i \in 1..Len(e.subjects) |-> Value(e.fn, e.subjects[i], e.pat)]]
    [] OTHER -> [done |-> TRUE]
=============================================================================
