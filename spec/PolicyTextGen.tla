--------------------------- MODULE PolicyTextGen ---------------------------
(* spec -> code: every text up to length N, and every pair of columns up to length C, with the *)
(* rules they stand for.                                                                   *)
EXTENDS PolicyText, Json, TLC, FiniteSets
CONSTANTS N, C, Variant
Alphabet == {"x", ",", Q, "#", " ", NL}
Texts == UNION {[1..n -> Alphabet] : n \in 0..N}
Values == UNION {[1..n -> Alphabet] : n \in 0..C}
VARIABLES kind, text
Init == \/ kind = "text" /\ text \in Texts
        \/ kind = "pair" /\ \E a, b \in Values : a # << >> /\ text = <<a, b>>
Next == FALSE /\ UNCHANGED <<kind, text>>
Spec == Init /\ [][Next]_<<kind, text>>
Reply(t) == LET p == Parse(t) IN IF p = Bad THEN [err |-> TRUE] ELSE [err |-> FALSE, seq |-> p.out]
\* a single line given to LoadPolicyLine; a line which is neither empty nor a comment nor a rule is left open
Line(t) == IF NL \in {t[i] : i \in 1..Len(t)} \/ (t # << >> /\ t[1] # "#" /\ Parse(t) = [out |-> << >>]) THEN << >>
           ELSE << [op |-> "line", text |-> t, res |-> Reply(t)] >>
Test == IF kind = "text"
        THEN << [op |-> "init"], [op |-> "parse", text |-> text, res |-> Reply(text)] >> \o Line(text)
        ELSE << [op |-> "init"], [op |-> "roundtrip", rows |-> <<text, <<text[2], text[1], text[2]>>>>,
                 res |-> [err |-> FALSE, rules |-> {text} \cup (IF text[2] = << >> THEN {} ELSE {<<text[2], text[1], text[2]>>})]] >>
Emit == PrintT(ToJson(Test))
(* ---- properties of the format ---- *)
\* what is written is what is read
RoundTrip == kind = "pair" => Parse(Format(<<text, text>>)) = [out |-> <<text, text>>]
\* a text either stands for rules, none of which is empty, or it is malformed
Total == kind = "text" => LET p == Parse(text) IN p = Bad \/ \A i \in 1..Len(p.out) : p.out[i] # << << >> >>
=============================================================================
