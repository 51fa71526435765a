---------------------------- MODULE PathMatchGen ----------------------------
(* spec -> code: every pattern with every path, up to a size, in each notation *)
EXTENDS PathMatch, Json, TLC
CONSTANTS Universe, P, N
(* "chars": all texts of N (pattern) and P (path) characters; "segs": all texts of N and P segments; *)
(* "helper": as "chars", in notations which pathMatch and pathMatch2 do not have                    *)
Fns == IF Universe = "helper" THEN {"helper"} ELSE {"pathMatch", "pathMatch2"}
Texts(alphabet, n) == UNION {[1..k -> alphabet] : k \in 0..n}
PatChars(nt) == ({"a", "*", nt.pre, nt.suf} \cup Range(nt.sep)) \ {""}
RECURSIVE Join(_, _)
Join(segs, sep) == IF Len(segs) = 1 THEN segs[1] ELSE segs[1] \o sep \o Join(Tail(segs), sep)
PatSegs == {<< >>, <<"a">>, <<"b">>, <<"*">>, <<":", "x">>, <<"{", "x", "}">>, <<"*", "a">>}
PathSegs == {<< >>, <<"a">>, <<"b">>, <<"*">>}
JoinAll(segs, n) == {Join(f, <<"/">>) : f \in UNION {[1..k -> segs] : k \in 1..n}}
Patterns(nt) == IF Universe = "segs" THEN JoinAll(PatSegs, N) ELSE Texts(PatChars(nt), N)
Paths(nt) == CASE Universe = "segs" -> JoinAll(PathSegs, P)
               [] Universe = "chars" -> Texts({"a", "b", "/"}, P) \cup Texts({"a", ":", "*", "/"}, 2) \cup Texts({"*", "/"}, P + 1)
               [] Universe = "helper" -> Texts({"a", "b"} \cup Range(nt.sep), P)
\* as definitions without arguments: they are evaluated once
N1 == [sep |-> <<":", ":">>, pre |-> "<", suf |-> ""]
N2 == [sep |-> <<":", ":">>, pre |-> ":", suf |-> ">"]
N3 == [sep |-> <<",">>, pre |-> "", suf |-> "$"]
N4 == [sep |-> <<"-", ">">>, pre |-> "", suf |-> ""]
HelperSeq(nt) == IF Universe = "helper" THEN SetToSeq(Paths(nt)) ELSE << >>
H1 == HelperSeq(N1)
H2 == HelperSeq(N2)
H3 == HelperSeq(N3)
H4 == HelperSeq(N4)
PlainSeq == IF Universe = "helper" THEN << >> ELSE SetToSeq(Paths(Colon))
Notations == IF Universe = "helper" THEN {N1, N2, N3, N4} ELSE {Colon, Brace}
Segs(seq, nt) == TLCEval([i \in 1..Len(seq) |-> Split(seq[i], nt)])
S1 == Segs(H1, N1)
S2 == Segs(H2, N2)
S3 == Segs(H3, N3)
S4 == Segs(H4, N4)
PlainSegs == Segs(PlainSeq, Colon)
VARIABLES fn, nt, pattern
Init == /\ fn \in Fns
        /\ nt \in IF fn = "helper" THEN Notations ELSE {Notation(fn)}
        /\ pattern \in Patterns(nt)
Next == FALSE /\ UNCHANGED <<fn, nt, pattern>>
Spec == Init /\ [][Next]_<<fn, nt, pattern>>
PathSeq == CASE nt = N1 -> H1 [] nt = N2 -> H2 [] nt = N3 -> H3 [] nt = N4 -> H4 [] OTHER -> PlainSeq
SegSeq == CASE nt = N1 -> S1 [] nt = N2 -> S2 [] nt = N3 -> S3 [] nt = N4 -> S4 [] OTHER -> PlainSegs
Expect == LET p == Split(pattern, nt) segs == SegSeq IN {i \in 1..Len(PathSeq) : Walk(segs[i], p, {0}, nt)}
Test == << [op |-> "init"],
           [op |-> "match", fn |-> fn, nt |-> nt, pattern |-> pattern, paths |-> PathSeq, res |-> [err |-> FALSE, hits |-> SetToSortSeq(Expect, <)]],
           [op |-> "ispattern", fn |-> fn, nt |-> nt, text |-> pattern, res |-> [err |-> FALSE, yes |-> IsPattern(pattern, nt)]] >>
Emit == PrintT(ToJson(Test))
(* ---- properties of the definition ---- *)
Agree == \A i \in 1..Len(PathSeq) : Matches(PathSeq[i], pattern, nt) = SegMatch(Split(PathSeq[i], nt), Split(pattern, nt), nt)
Itself == Matches(pattern, pattern, nt)
\* the segments make up the text, and none has a separator in it
Whole == LET s == Split(pattern, nt) IN Join(s, nt.sep) = pattern /\ \A i \in 1..Len(s) : \A k \in 0..Len(s[i]) : ~IsPrefix(nt.sep, SubSeq(s[i], k + 1, Len(s[i])))
\* only patterns match anything else
Plain == ~IsPattern(pattern, nt) => Expect = {i \in 1..Len(PathSeq) : PathSeq[i] = pattern}
=============================================================================
