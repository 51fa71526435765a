------------------------------- MODULE Words -------------------------------
(* short names for expressions (see Expr) *)
EXTENDS Naturals
S(x) == [t |-> "s", v |-> x, k |-> 0]
P(c) == <<"p", "p", c>>
R(c) == <<"r", "r", c>>
Lit(x) == <<"lit", S(x)>>
Eq(a, b) == <<"eq", a, b>>
Ne(a, b) == <<"ne", a, b>>
And(a, b) == <<"and", a, b>>
Or(a, b) == <<"or", a, b>>
Not(a) == <<"not", a>>
F(a) == <<"fn", "f1", <<a>>>>
RECURSIVE Trees(_, _, _)
\* trees with n leaves of L and m negations
Trees(L, n, m) ==
  IF m < 0 THEN {}
  ELSE (IF n = 1 /\ m = 0 THEN L ELSE {})
       \cup (IF n > 1 THEN UNION {UNION {{<<op, a, b>> : op \in {"and", "or"}, a \in Trees(L, k, j), b \in Trees(L, n - k, m - j)} : j \in 0..m} : k \in 1..(n - 1)} ELSE {})
       \cup {Not(t) : t \in {x \in Trees(L, n, m - 1) : x[1] # "not"}}
=============================================================================
