----------------------------- MODULE FnTableGen -----------------------------
(* spec -> code: every short history of functions which are registered, set and removed; at the  *)
(* end every model is asked for every name                                                   *)
EXTENDS FnTable, Json
CONSTANTS D, M
VARIABLES s, hist, asked
Names == {"n1", "globMatch"}
Ops == {[op |-> "global", name |-> n, id |-> i] : n \in Names, i \in {1, 2}}
       \cup (IF Len(s.tabs) < M THEN {[op |-> "model"]} ELSE {})
       \cup UNION {{[op |-> "setfn", i |-> m, name |-> n, id |-> 3], [op |-> "removefn", i |-> m, name |-> n]} : m \in 1..Len(s.tabs), n \in Names}
Step(e) == /\ s' = FStep(s, e)
           /\ hist' = Append(hist, e @@ [res |-> FReply(s, e)])
           /\ UNCHANGED asked
Asks == {[op |-> "ask", i |-> m, name |-> n] : m \in 1..Len(s.tabs), n \in Names}
Init == s = FInit /\ hist = << [op |-> "init"] >> /\ asked = FALSE
Next == IF Len(hist) <= D THEN \E e \in Ops : Step(e)
        ELSE ~asked /\ asked' = TRUE /\ UNCHANGED s /\ hist' = hist \o [k \in 1..Cardinality(Asks) |-> LET e == SetToSeq(Asks)[k] IN e @@ [res |-> FReply(s, e)]]
Spec == Init /\ [][Next]_<<s, hist, asked>>
Emit == asked => PrintT(ToJson(hist))
(* ---- laws ---- *)
\* a model knows its own changes and what was registered before it, whatever happens elsewhere
Own == \A m \in 1..Len(s.tabs), n \in Names :
  LET made == CHOOSE k \in 1..Len(hist) : hist[k].op = "model" /\ Cardinality({j \in 1..k : hist[j].op = "model"}) = m
      mine == {k \in made..Len(hist) : hist[k].op \in {"setfn", "removefn"} /\ hist[k].i = m /\ hist[k].name = n}
      globals == {k \in 1..made : hist[k].op = "global" /\ hist[k].name = n}
      t == s.tabs[m] IN
  IF mine # {} THEN LET e == hist[Max(mine)] IN IF e.op = "removefn" THEN n \notin DOMAIN t ELSE t[n] = e.id
  ELSE IF globals # {} THEN t[n] = hist[Max(globals)].id
  ELSE IF n \in DOMAIN Built THEN t[n] = Built[n] ELSE n \notin DOMAIN t
=============================================================================
