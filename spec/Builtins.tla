------------------------------ MODULE Builtins ------------------------------
(* The built-in matching functions: regexMatch, globMatch, ipMatch. Patterns are trees, Text*  *)
(* writes them down; subjects are sequences of characters.                                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
CONSTANT Variant
Letters == <<"A", "B", "C", "a", "b", "c", "d", "e", "x", "y", "z">>      \* in their order
Pos(c) == SelectInSeq(Letters, LAMBDA x : x = c)
InRange(c, r) == IF r[1] = r[2] THEN c = r[1] ELSE Pos(c) # 0 /\ Pos(r[1]) <= Pos(c) /\ Pos(c) <= Pos(r[2])
InClass(c, neg, ranges) == (\E i \in 1..Len(ranges) : InRange(c, ranges[i])) # neg
Cat(seq) == FoldLeft(LAMBDA a, b : a \o b, "", seq)
TextClass(neg, ranges) == "[" \o (IF neg THEN "^" ELSE "") \o Cat([i \in 1..Len(ranges) |-> IF ranges[i][1] = ranges[i][2] THEN ranges[i][1] ELSE ranges[i][1] \o "-" \o ranges[i][2]]) \o "]"

(* ---- regular expressions ---- *)
\* chr c | esc c | any | cls neg ranges | star r | plus r | opt r | rep r n m | grp r | cat rs | alt r q | bol | eol
RECURSIVE TextR(_)
AtomR(r) == IF r[1] \in {"chr", "esc", "any", "cls", "grp"} THEN TextR(r) ELSE "(?:" \o TextR(r) \o ")"
TextR(r) ==
  CASE r[1] = "chr" -> r[2]
    [] r[1] = "esc" -> "\\" \o r[2]
    [] r[1] = "any" -> "."
    [] r[1] = "cls" -> TextClass(r[2], r[3])
    [] r[1] = "star" -> AtomR(r[2]) \o "*"
    [] r[1] = "plus" -> AtomR(r[2]) \o "+"
    [] r[1] = "opt" -> AtomR(r[2]) \o "?"
    [] r[1] = "rep" -> AtomR(r[2]) \o "{" \o ToString(r[3]) \o "," \o ToString(r[4]) \o "}"
    [] r[1] = "grp" -> "(" \o TextR(r[2]) \o ")"
    [] r[1] = "cat" -> Cat([i \in 1..Len(r[2]) |-> IF r[2][i][1] = "alt" THEN AtomR(r[2][i]) ELSE TextR(r[2][i])])
    [] r[1] = "alt" -> TextR(r[2]) \o "|" \o TextR(r[3])
    [] r[1] = "bol" -> "^"
    [] r[1] = "eol" -> "$"
    [] r[1] = "bad" -> r[2]
\* where a match of r which starts behind character i can end
RECURSIVE Ends(_, _, _), Closure(_, _, _), Times(_, _, _, _)
From(r, s, is) == UNION {Ends(r, s, i) : i \in is}
Closure(r, s, is) == LET n == is \cup From(r, s, is) IN IF n = is THEN is ELSE Closure(r, s, n)
Times(r, s, is, n) == IF n = 0 THEN is ELSE Times(r, s, From(r, s, is), n - 1)
Char(s, i, good) == IF i < Len(s) /\ good THEN {i + 1} ELSE {}
Ends(r, s, i) ==
  CASE r[1] \in {"chr", "esc"} -> Char(s, i, i < Len(s) /\ s[i + 1] = r[2])
    [] r[1] = "any" -> Char(s, i, i < Len(s) /\ (s[i + 1] # "\n" \/ Variant = "dotall"))
    [] r[1] = "cls" -> Char(s, i, i < Len(s) /\ InClass(s[i + 1], r[2], r[3]))
    [] r[1] = "star" -> Closure(r[2], s, {i})
    [] r[1] = "plus" -> Closure(r[2], s, Ends(r[2], s, i))
    [] r[1] = "opt" -> {i} \cup Ends(r[2], s, i)
    [] r[1] = "rep" -> UNION {Times(r[2], s, {i}, n) : n \in r[3]..r[4]}
    [] r[1] = "grp" -> Ends(r[2], s, i)
    [] r[1] = "cat" -> FoldLeft(LAMBDA is, q : From(q, s, is), {i}, r[2])
    [] r[1] = "alt" -> Ends(r[2], s, i) \cup Ends(r[3], s, i)
    [] r[1] = "bol" -> IF i = 0 THEN {i} ELSE {}
    [] r[1] = "eol" -> IF i = Len(s) THEN {i} ELSE {}
\* anywhere in the subject
Regex(s, r) == IF Variant = "anchored" THEN Len(s) \in Ends(r, s, 0) ELSE \E i \in 0..Len(s) : Ends(r, s, i) # {}

(* ---- globs: a sequence of tokens ---- *)
\* chr c | esc c | one | many | cls neg ranges
TextG(g) == Cat([i \in 1..Len(g) |-> CASE g[i][1] = "chr" -> g[i][2] [] g[i][1] = "esc" -> "\\" \o g[i][2] [] g[i][1] = "one" -> "?" [] g[i][1] = "many" -> "*"
                                       [] g[i][1] = "cls" -> TextClass(g[i][2], g[i][3]) [] g[i][1] = "bad" -> g[i][2]])
RECURSIVE Glob(_, _)
Glob(s, g) ==
  IF g = << >> THEN s = << >> \/ Variant = "prefix"
  ELSE LET t == Head(g) IN
       IF t[1] = "many" THEN Glob(s, Tail(g)) \/ (s # << >> /\ (Head(s) # "/" \/ Variant = "cross") /\ Glob(Tail(s), g))
       ELSE /\ s # << >>
            /\ CASE t[1] \in {"chr", "esc"} -> Head(s) = t[2]
                 [] t[1] = "one" -> Head(s) # "/"
                 [] t[1] = "cls" -> InClass(Head(s), t[2], t[3])
            /\ Glob(Tail(s), Tail(g))

(* ---- addresses and networks ---- *)
\* v4 bytes | map bytes (the same address, written as IPv6) | v6 words a b (words a..b, all 0, are written "::") | bad text
\* net address length
Hex(n) == LET d == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
              h[k \in Nat] == IF k < 16 THEN d[k + 1] ELSE h[k \div 16] \o d[(k % 16) + 1]
          IN h[n]
Sep(texts, sep) == IF texts = << >> THEN "" ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, Head(texts), Tail(texts))
Text4(b) == Sep([i \in 1..4 |-> ToString(b[i])], ".")
Text6(w, a, b) == LET h == [i \in 1..8 |-> Hex(w[i])] IN
                  IF a = 0 THEN Sep(h, ":") ELSE Sep(SubSeq(h, 1, a - 1), ":") \o "::" \o Sep(SubSeq(h, b + 1, 8), ":")
RECURSIVE TextI(_)
TextI(x) == CASE x[1] = "v4" -> Text4(x[2]) [] x[1] = "map" -> "::ffff:" \o Text4(x[2]) [] x[1] = "v6" -> Text6(x[2], x[3], x[4])
              [] x[1] = "net" -> TextI(x[2]) \o "/" \o ToString(x[3]) [] x[1] = "bad" -> x[2]
Family(x) == IF x[1] = "v6" \/ (x[1] = "map" /\ Variant = "mapped") THEN 6 ELSE 4
Width(x) == IF x[1] = "v6" THEN 16 ELSE 8       \* bits per number
SameBits(x, y, n) == LET w == Width(x) IN
  \A i \in 1..Len(x[2]) : LET k == n - (i - 1) * w IN
     IF k <= 0 THEN TRUE ELSE IF k >= w THEN x[2][i] = y[2][i] ELSE x[2][i] \div 2^(w - k) = y[2][i] \div 2^(w - k)
Usable(x) == x[1] # "bad" /\ (x[1] = "net" => x[2][1] \in {"v4", "v6"} /\ x[3] <= IF Family(x[2]) = 4 THEN 32 ELSE 128)
Ip(x, y) == IF y[1] = "net" THEN (IF Variant = "family" THEN y[3] = 0 \/ Family(x) = Family(y[2]) ELSE Family(x) = Family(y[2])) /\ SameBits(x, y[2], IF Variant = "bytes" THEN (y[3] \div 8) * 8 ELSE y[3])
            ELSE Family(x) = Family(y) /\ x[2] = y[2]

(* ---- T, F, or E: an error ---- *)
Text(fn, pat) == CASE fn = "regexMatch" -> TextR(pat) [] fn = "globMatch" -> TextG(pat) [] fn = "ipMatch" -> TextI(pat)
Bad(fn, pat) == CASE fn = "regexMatch" -> pat[1] = "bad"
                  [] fn = "globMatch" -> \E i \in 1..Len(pat) : pat[i][1] = "bad"
                  [] fn = "ipMatch" -> ~Usable(pat)
Tf(b) == IF b THEN "T" ELSE "F"
Value(fn, subject, pat) ==
  IF Bad(fn, pat) THEN "E"
  ELSE CASE fn = "regexMatch" -> Tf(Regex(subject, pat))
         [] fn = "globMatch" -> Tf(Glob(subject, pat))
         [] fn = "ipMatch" -> IF subject[1] \in {"bad", "net"} THEN "E" ELSE Tf(Ip(subject, pat))
SubjectText(fn, x) == IF fn = "ipMatch" THEN TextI(x) ELSE Cat(x)
=============================================================================
