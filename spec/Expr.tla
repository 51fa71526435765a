-------------------------------- MODULE Expr --------------------------------
(* What a matcher expression means: ordinary Boolean logic over a rule and a request.     *)
(*                                                                                       *)
(* A value is [t, v, k]: t = "s" text, "n" number (k its rank), "b" Boolean ("T" or "F"), *)
(* "o" object (v its name). Texts and numbers are known by names; the world w says        *)
(*   w.srank   rank of the texts in their order                                          *)
(*   w.rx      set of <<text, regular expression>> that match                             *)
(*   w.fns     per function a set of <<arguments, outcome>>; otherwise "F"                *)
(*   w.subs    expressions which are the content of a column (for eval)                   *)
(*   w.objs    per object its attributes                                                  *)
(*   w.cat     the text made of two texts; w.tfns functions from texts to texts; w.arith    *)
(*             sums, differences and products of numbers (no fields where no matcher asks)   *)
(*                                                                                       *)
(* The environment c of an evaluation: rule (its columns), pkey, cols (names of columns),  *)
(* req (request values), rkey, rcols, rms (role managers by key), w.                       *)
(*                                                                                       *)
(* Ev returns [v, pe]. v is the value: "T", "F" or "E", which means that no value can be    *)
(* given because of an error; a false conjunct or a true alternative decide nevertheless.  *)
(* pe: an error may be met, because an operand which is not determined to be irrelevant by  *)
(* the operands on its left cannot be evaluated.                                          *)
EXTENDS Rbac
Str(x) == [t |-> "s", v |-> x, k |-> 0]
Bool(b) == [t |-> "b", v |-> IF b THEN "T" ELSE "F", k |-> 0]
VErr == [e |-> TRUE, x |-> Str("?")]
VOK(x) == [e |-> FALSE, x |-> x]
TF(b) == IF b THEN "T" ELSE "F"
Atom(v) == [v |-> v, pe |-> v = "E"]
IndexIn(seq, x) == IF \E i \in 1..Len(seq) : seq[i] = x THEN CHOOSE i \in 1..Len(seq) : seq[i] = x ELSE 0
Kleene(v) == CASE v = "T" -> "F" [] v = "F" -> "T" [] OTHER -> "E"
SameValue(a, b) == a.t = b.t /\ a.v = b.v

(* the functions an expression calls *)
RECURSIVE Calls(_)
CallsIn(seq) == UNION {Calls(seq[i]) : i \in 1..Len(seq)}
Calls(n) ==
  CASE n[1] \in {"p", "r", "lit", "const", "unk"} -> {}
    [] n[1] \in {"cat", "and", "or", "beq", "bne", "eq", "ne", "lt", "le", "gt", "ge"} -> Calls(n[2]) \cup Calls(n[3])
    [] n[1] \in {"not", "rx", "nrx", "bt", "eval", "acc"} -> Calls(n[2])
    [] n[1] \in {"tern", "tif"} -> Calls(n[2]) \cup Calls(n[3]) \cup Calls(n[4])
    [] n[1] = "in" -> Calls(n[2]) \cup CallsIn(n[3])
    [] n[1] = "arith" -> Calls(n[3]) \cup Calls(n[4])
    [] n[1] \in {"fn", "g"} -> {n[2]} \cup CallsIn(n[3])
    [] n[1] \in {"meth", "call"} -> CallsIn(n[3])
RECURSIVE Ev(_, _), Tm(_, _)
Tm(c, n) ==
  CASE n[1] = "p" -> LET i == IndexIn(c.cols, n[3]) IN
                     IF n[2] # c.pkey \/ i = 0 \/ i > Len(c.rule) THEN VErr ELSE VOK(Str(c.rule[i]))
    [] n[1] = "r" -> LET i == IndexIn(c.rcols, n[3]) IN
                     IF n[2] # c.rkey \/ i = 0 \/ i > Len(c.req) THEN VErr ELSE VOK(c.req[i])
    [] n[1] = "lit" -> VOK(n[2])
    [] n[1] = "acc" -> LET o == Tm(c, n[2]) IN
                       IF o.e \/ o.x.t # "o" THEN VErr
                       ELSE IF n[3] \in DOMAIN c.w.objs[o.x.v] THEN VOK(c.w.objs[o.x.v][n[3]]) ELSE VErr
    [] n[1] = "cat" -> LET a == Tm(c, n[2])
                           b == Tm(c, n[3]) IN
                       IF a.e \/ b.e \/ a.x.t # "s" \/ b.x.t # "s" THEN VErr ELSE VOK(Str(c.w.cat[a.x.v][b.x.v]))
    [] n[1] = "call" -> LET a == Tm(c, n[3][1]) IN
                        IF a.e \/ a.x.t # "s" THEN VErr ELSE VOK(Str(IF a.x.v \in DOMAIN c.w.tfns[n[2]] THEN c.w.tfns[n[2]][a.x.v] ELSE ""))
    [] n[1] = "arith" -> LET a == Tm(c, n[3])
                             b == Tm(c, n[4]) IN
                         IF a.e \/ b.e \/ a.x.t # "n" \/ b.x.t # "n" THEN VErr ELSE VOK(c.w.arith[n[2]][a.x.v][b.x.v])
    [] n[1] = "tif" -> LET q == Ev(c, n[2]) IN
                       CASE q.v = "T" -> Tm(c, n[3]) [] q.v = "F" -> Tm(c, n[4]) [] OTHER -> VErr
    [] OTHER -> Assert(FALSE, <<"term", n>>)
Cmp(c, op, a, b) ==
  IF op = "eq" THEN TF(SameValue(a, b))
  ELSE IF op = "ne" THEN TF(~SameValue(a, b))
  ELSE IF a.t # b.t \/ a.t \notin {"s", "n"} THEN "E"
  ELSE LET x == IF a.t = "s" THEN c.w.srank[a.v] ELSE a.k
           y == IF b.t = "s" THEN c.w.srank[b.v] ELSE b.k
       IN CASE op = "lt" -> TF(x < y) [] op = "le" -> TF(x <= y) [] op = "gt" -> TF(x > y) [] op = "ge" -> TF(x >= y)
Args(c, ns) == [i \in 1..Len(ns) |-> Tm(c, ns[i])]
Texts(as) == \A i \in 1..Len(as) : ~as[i].e /\ as[i].x.t = "s"
Ev(c, n) ==
  CASE n[1] = "and" -> LET a == Ev(c, n[2]) IN
                       IF a.v = "F" THEN a
                       ELSE LET b == Ev(c, n[3]) IN
                            [v |-> IF b.v = "F" THEN "F" ELSE IF a.v = "E" THEN "E" ELSE b.v, pe |-> a.pe \/ b.pe]
    [] n[1] = "or" -> LET a == Ev(c, n[2])
                          b == Ev(c, n[3]) IN
                      [v |-> IF "T" \in {a.v, b.v} THEN "T" ELSE IF "E" \in {a.v, b.v} THEN "E" ELSE "F", pe |-> a.pe \/ b.pe]
    [] n[1] = "not" -> LET a == Ev(c, n[2]) IN [v |-> Kleene(a.v), pe |-> a.pe]
    [] n[1] = "tern" -> LET q == Ev(c, n[2])
                            x == Ev(c, n[3])
                            y == Ev(c, n[4]) IN
                        [v |-> IF q.v = "T" THEN x.v ELSE IF q.v = "F" THEN y.v ELSE IF x.v = y.v THEN x.v ELSE "E",
                         pe |-> q.pe \/ (q.v # "F" /\ x.pe) \/ (q.v # "T" /\ y.pe)]
    [] n[1] \in {"beq", "bne"} -> LET a == Ev(c, n[2])
                                       b == Ev(c, n[3]) IN
                                   [v |-> IF "E" \in {a.v, b.v} THEN "E" ELSE TF((a.v = b.v) = (n[1] = "beq")), pe |-> a.pe \/ b.pe]
    [] n[1] = "const" -> Atom(n[2])
    [] n[1] = "unk" -> Atom("E")
    [] n[1] \in {"eq", "ne", "lt", "le", "gt", "ge"} ->
         LET a == Tm(c, n[2])
             b == Tm(c, n[3]) IN IF a.e \/ b.e THEN Atom("E") ELSE Atom(Cmp(c, n[1], a.x, b.x))
    [] n[1] = "in" ->
         LET a == Tm(c, n[2])
             bs == Args(c, n[3]) IN
         IF a.e \/ \E i \in 1..Len(bs) : bs[i].e THEN Atom("E")
         ELSE Atom(TF(\E i \in 1..Len(bs) : SameValue(a.x, bs[i].x)))
    [] n[1] \in {"rx", "nrx"} ->
         LET a == Tm(c, n[2]) IN
         IF a.e \/ a.x.t # "s" THEN Atom("E")
         ELSE Atom(TF((<<a.x.v, n[3]>> \in c.w.rx) = (n[1] = "rx")))
    [] n[1] = "bt" -> LET a == Tm(c, n[2]) IN
                      IF a.e THEN Atom("E") ELSE IF a.x.t = "b" THEN Atom(a.x.v) ELSE [v |-> "F", pe |-> TRUE]
    [] n[1] \in {"fn", "meth"} ->
         LET as == Args(c, n[3])
             key == n[2] \o (IF n[1] = "meth" THEN "." ELSE "") IN
         IF n[1] = "meth" /\ (as[1].e \/ as[1].x.t # "o") THEN Atom("E")
         ELSE LET ts == IF n[1] = "meth" THEN Tail(as) ELSE as
                  own == IF n[1] = "meth" THEN <<as[1].x.v>> ELSE << >> IN
         IF ~Texts(ts) \/ key \notin DOMAIN c.w.fns THEN Atom("E")
         ELSE LET k == own \o [i \in 1..Len(ts) |-> ts[i].x.v]
                  hit == {row \in c.w.fns[key] : row[1] = k}
              out == IF hit = {} THEN "F" ELSE (CHOOSE row \in hit : TRUE)[2]
              IN Atom(IF out = "P" THEN "E" ELSE out)
    [] n[1] = "g" ->
         LET as == Args(c, n[3]) IN
         IF n[2] \notin DOMAIN c.rms \/ ~Texts(as) \/ Len(as) < 2 THEN Atom("E")
         ELSE LET m == c.rms[n[2]]
                  d == [i \in 1..Len(as) - 2 |-> as[i + 2].x.v]
              IN Atom(TF(HasLink(m, as[1].x.v, as[2].x.v, IF m.kind = "rm" THEN << >> ELSE d)))
    [] n[1] = "eval" ->
         LET a == Tm(c, n[2]) IN
         IF a.e \/ a.x.t # "s" \/ a.x.v \notin DOMAIN c.w.subs \/ ~(Calls(c.w.subs[a.x.v]) \subseteq DOMAIN c.w.fns \cup DOMAIN c.rms) THEN Atom("E") ELSE Ev(c, c.w.subs[a.x.v])
    [] OTHER -> Assert(FALSE, <<"condition", n>>)
=============================================================================
