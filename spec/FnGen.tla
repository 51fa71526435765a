------------------------------- MODULE FnGen -------------------------------
(* spec -> code: every small pattern of a built-in function with every small subject *)
EXTENDS FnTable, Json
CONSTANTS Universe, N, P
Texts(alphabet, n) == UNION {[1..k -> alphabet] : k \in 0..n}
(* ---- regular expressions: trees with N leaves ---- *)
Chr(c) == <<"chr", c>>
Leaves == {Chr("a"), Chr("b"), <<"any">>, <<"cls", TRUE, <<<<"a", "a">>>>>>, <<"bol">>, <<"eol">>, <<"esc", ".">>}
Few == {Chr("a"), Chr("b"), <<"any">>}
Quants(S) == {<<q, r>> : q \in {"star", "plus", "opt"}, r \in S} \cup {<<"rep", r, 2, 3>> : r \in S} \cup {<<"grp", r>> : r \in S}
Join2(S, T) == {<<"cat", <<a, b>>>> : a \in S, b \in T} \cup {<<"alt", a, b>> : a \in S, b \in T}
Regexes == LET one == Leaves \cup Quants(Leaves)
               two == Join2(one, one)
               few2 == Join2(Few \cup {<<"star", Chr("a")>>}, Few \cup {<<"bol">>, <<"eol">>})
           IN one \cup two \cup Quants(few2) \cup {<<"cat", << >>>>}
              \cup (IF N > 1 THEN Join2(few2, one) \cup Join2(Quants(few2), Few) ELSE {})
              \cup {<<"bad", t>> : t \in {"(", ")", "[a", "*", "a**", "\\", "(?z)", "a{3,2}", "[c-a]", "+a", "a)", "(a"}}
(* ---- globs: up to N + 2 tokens ---- *)
Tokens == {Chr("a"), Chr("/"), <<"one">>, <<"many">>, <<"cls", FALSE, <<<<"a", "b">>>>>>, <<"cls", TRUE, <<<<"a", "a">>>>>>, <<"esc", "*">>}
Globs == Texts(Tokens, N + 2) \cup {g \o << <<"bad", t>> >> : g \in Texts({Chr("a"), <<"many">>, <<"one">>}, 2), t \in {"[", "[]", "[a", "\\", "[a-", "[^]"}}
(* ---- addresses ---- *)
V4 == {<<"v4", b>> : b \in {<<10, 0, 0, 1>>, <<10, 0, 0, 2>>, <<10, 0, 1, 1>>, <<10, 128, 0, 1>>, <<11, 0, 0, 1>>, <<127, 0, 0, 1>>, <<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<192, 168, 2, 123>>}}
Maps == {<<"map", b>> : b \in {<<10, 0, 0, 1>>, <<255, 255, 255, 255>>}}
V6 == {<<"v6", <<0, 0, 0, 0, 0, 0, 0, 1>>, 1, 7>>, <<"v6", <<0, 0, 0, 0, 0, 0, 0, 1>>, 0, 0>>, <<"v6", <<0, 0, 0, 0, 0, 0, 0, 0>>, 1, 8>>, <<"v6", <<8193, 3512, 0, 0, 1, 0, 0, 1>>, 3, 4>>,
       <<"v6", <<8193, 3512, 0, 0, 1, 0, 0, 1>>, 6, 7>>, <<"v6", <<8193, 3512, 0, 0, 32769, 0, 0, 1>>, 3, 4>>, <<"v6", <<65152, 0, 0, 0, 0, 0, 0, 43981>>, 2, 7>>, <<"v6", <<65535, 0, 0, 0, 0, 0, 2560, 1>>, 2, 6>>}
BadIps == {<<"bad", t>> : t \in {"", "10.0.0", "10.0.0.256", "10.0.0.1.1", "010.0.0.1", "a.b.c.d", " 10.0.0.1", "1::2::3", ":::", "10.0.0.1/", "10.0.0.1/33", "10.0.0.1/-1", "10.0.0.1/8/8", "::/129", "/8", "g::1"}}
Nets == {<<"net", a, n>> : a \in V4, n \in 0..(IF N > 1 THEN 33 ELSE 32) \ (IF N > 1 THEN {} ELSE {3, 5, 6, 11, 13, 14, 18, 19, 20, 21, 22, 27, 28, 29})}
        \cup {<<"net", a, n>> : a \in V6, n \in {0, 1, 15, 16, 17, 32, 64, 65, 127, 128, 129} \cup (IF N > 1 THEN 2..126 ELSE {})}
Patterns == CASE Universe = "regexMatch" -> Regexes [] Universe = "globMatch" -> Globs [] Universe = "ipMatch" -> V4 \cup Maps \cup V6 \cup BadIps \cup Nets
Subjects == SetToSeq(CASE Universe = "regexMatch" -> Texts({"a", "b"}, P) \cup Texts({"a", ".", "\n"}, 2)
                       [] Universe = "globMatch" -> Texts({"a", "b", "/"}, P) \cup Texts({"a", "*", "\\"}, 2)
                       [] Universe = "ipMatch" -> V4 \cup Maps \cup V6 \cup BadIps \cup {<<"net", <<"v4", <<10, 0, 0, 1>>>>, 8>>, <<"net", <<"v6", <<0, 0, 0, 0, 0, 0, 0, 1>>, 1, 7>>, 64>>})
VARIABLE pat
\* whether a negated class stands for a slash is not said
Negated == Universe = "globMatch" /\ \E i \in 1..Len(pat) : pat[i][1] = "cls" /\ pat[i][2]
Asked == IF Negated THEN SelectSeq(Subjects, LAMBDA x : ~Contains(x, "/")) ELSE Subjects
Init == pat \in Patterns
Next == FALSE /\ UNCHANGED pat
Spec == Init /\ [][Next]_pat
Test == LET a == Asked IN
        << [op |-> "init"],
           [op |-> "match", fn |-> Universe, text |-> Text(Universe, pat), texts |-> [i \in 1..Len(a) |-> SubjectText(Universe, a[i])],
            res |-> [vals |-> [i \in 1..Len(a) |-> Value(Universe, a[i], pat)]]] >>
Emit == PrintT(ToJson(Test))
(* ---- laws of the definitions ---- *)
Flip(a, n) == LET w == Width(a)
                  i == ((n - 1) \div w) + 1
                  b == 2^(w - 1 - ((n - 1) % w)) IN
              [a EXCEPT ![2][i] = IF (@ \div b) % 2 = 1 THEN @ - b ELSE @ + b]
V(x, p) == Value(Universe, x, p)
At(x) == \E i \in 1..Len(Subjects) : Subjects[i] = x
Laws ==
  CASE Universe = "regexMatch" ->
         \* found inside a text, unless it is tied to an end
         pat[1] # "bad" => \A i \in 1..Len(Subjects) : LET x == Subjects[i] IN
           /\ V(x, <<"cat", <<<<"star", <<"any">>>>, pat>>>>) = V(x, pat) \/ \E c \in {"\n"} : Contains(x, c)
           /\ V(x, <<"star", pat>>) = "T"
           /\ V(<<"\n">>, <<"any">>) = "F"
           /\ (V(x, <<"cat", <<<<"bol">>, pat, <<"eol">>>>>>) = "T" => V(x, pat) = "T")
    [] Universe = "globMatch" ->
         Bad(Universe, pat) \/ \A i \in 1..Len(Subjects) : LET x == Subjects[i] IN
           \* slashes are matched by slashes and classes only
           /\ ((\A k \in 1..Len(pat) : pat[k][1] # "cls") /\ V(x, pat) = "T") =>
                Cardinality({k \in 1..Len(x) : x[k] = "/"}) = Cardinality({k \in 1..Len(pat) : pat[k] = Chr("/")})
           \* a pattern of characters matches itself only
           /\ (\A k \in 1..Len(pat) : pat[k][1] = "chr") => (V(x, pat) = "T") = (x = [k \in 1..Len(pat) |-> pat[k][2]])
    [] Universe = "ipMatch" ->
         \A i \in 1..Len(Subjects) : LET x == Subjects[i] IN
           /\ (x[1] \notin {"bad", "net"}) => V(x, x) = "T"
           /\ (x[1] \notin {"bad", "net"} /\ pat[1] \notin {"bad", "net"}) => V(x, pat) = V(pat, x)
           \* a longer prefix is a smaller network; the longest is one address
           /\ (pat[1] = "net" /\ pat[3] > 0 /\ V(x, pat) = "T") => V(x, [pat EXCEPT ![3] = @ - 1]) = "T"
           /\ (pat[1] = "net" /\ x[1] \notin {"bad", "net"} /\ pat[3] = (IF Family(pat[2]) = 4 THEN 32 ELSE 128)) => V(x, pat) = V(x, pat[2])
           \* an address which differs in the last bit of the prefix is outside, in the bit behind it is inside
           /\ (pat[1] = "net" /\ Usable(pat) /\ pat[3] > 0) => V(Flip(pat[2], pat[3]), pat) = "F"
           /\ (pat[1] = "net" /\ Usable(pat) /\ pat[3] < (IF Family(pat[2]) = 4 THEN 32 ELSE 128)) => V(Flip(pat[2], pat[3] + 1), pat) = "T"
           /\ (pat[1] = "map" /\ x[1] = "v4" /\ x[2] = pat[2]) => V(x, pat) = "T"
           /\ (pat[1] = "net" /\ pat[3] = 0 /\ x[1] \notin {"bad", "net"}) => V(x, pat) = Tf(Family(x) = Family(pat[2]))
           /\ (x[1] \notin {"bad", "net"} /\ pat[1] # "bad" /\ Usable(pat)) => (Family(x) # Family(IF pat[1] = "net" THEN pat[2] ELSE pat) => V(x, pat) = "F")
=============================================================================
