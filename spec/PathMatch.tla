----------------------------- MODULE PathMatch -----------------------------
(* Paths and path patterns. A text is a sequence of characters; its segments are what the       *)
(* separators separate. A notation [sep, pre, suf] has a separator (characters) and the marks     *)
(* at the start and at the end of a parameter; "" is no mark. pathMatch has /, : and no mark,     *)
(* pathMatch2 has /, { and }, and the helpers take any notation.                                *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
CONSTANT Variant
RECURSIVE SplitFrom(_, _, _)
SplitFrom(t, seg, sep) == IF t = << >> THEN <<seg>>
                          ELSE IF IsPrefix(sep, t)
                               THEN <<seg>> \o SplitFrom(SubSeq(t, (IF Variant = "shortsep" THEN 1 ELSE Len(sep)) + 1, Len(t)), << >>, sep)
                          ELSE SplitFrom(Tail(t), Append(seg, Head(t)), sep)
Split(t, notation) == SplitFrom(t, << >>, notation.sep)
IsStar(seg) == seg = <<"*">>
IsParam(seg, notation) == /\ seg # << >>
                          /\ notation.pre \in {"", seg[1]} /\ notation.suf \in {"", seg[Len(seg)]}
IsPattern(t, notation) == \E i \in 1..Len(Split(t, notation)) : LET seg == Split(t, notation)[i] IN IsStar(seg) \/ IsParam(seg, notation)
One(seg, pat, notation) == seg = pat \/ IsParam(pat, notation)
(* the pattern covers the path: segment k of the pattern stands for cut[k-1]+1 .. cut[k] of the path *)
SegMatch(s, p, notation) ==
  \E cut \in [0..Len(p) -> 0..Len(s)] :
    /\ cut[0] = 0 /\ cut[Len(p)] = Len(s)
    /\ \A k \in 1..Len(p) : /\ cut[k] > cut[k - 1]
                            /\ IsStar(p[k]) \/ (cut[k] = cut[k - 1] + 1 /\ One(s[cut[k]], p[k], notation))
(* the same, one segment of the pattern after the other: at says how much of the path they may cover *)
After(s, p, at, notation) ==
  IF IsStar(p[1])
  THEN CASE Variant = "starone" -> {i + 1 : i \in at}
         [] Variant = "starzero" -> UNION {i..Len(s) : i \in at}
         [] Variant = "greedy" -> UNION {IF Len(p) = 1 THEN {Len(s)}
                                         ELSE LET k == {j \in (i + 2)..Len(s) : One(s[j], p[2], notation)} IN
                                              IF k = {} THEN {} ELSE {(CHOOSE j \in k : \A x \in k : j <= x) - 1} : i \in at \ {Len(s)}}
         [] OTHER -> UNION {(i + 1)..Len(s) : i \in at}
  ELSE {i + 1 : i \in {j \in at \ {Len(s)} : \/ s[j + 1] = p[1]
                                             \/ IsParam(p[1], notation) /\ (Variant = "paramempty" => s[j + 1] # << >>)}}
RECURSIVE Walk(_, _, _, _)
Walk(s, p, at, notation) == IF p = << >> \/ at = {} THEN Len(s) \in at
                            ELSE Walk(s, Tail(p), After(s, p, at, notation) \cap 0..Len(s), notation)
Matches(path, pattern, notation) == Walk(Split(path, notation), Split(pattern, notation), {0}, notation)
(* ways to ask, each with its notation *)
Colon == [sep |-> <<"/">>, pre |-> ":", suf |-> ""]
Brace == [sep |-> <<"/">>, pre |-> "{", suf |-> "}"]
Notation(fn) == IF fn = "pathMatch2" THEN Brace ELSE Colon
=============================================================================
