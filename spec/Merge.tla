------------------------------- MODULE Merge -------------------------------
(* How a decision is made: the enforcer visits the matching rules in some order, some of *)
(* them twice, hands the effects seen so far to the effector after each of them and once *)
(* more at the end, and stops when the effector has an answer. A visit may meet an error. *)
(* The answer has to be the one of Engine, which knows of no order and no visits.         *)
(* DefaultEffector.MergeEffects is written down here as it is, Variant is a wrong one.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Variant

Eng == INSTANCE Engine
Efts == {"allow", "deny", "other"}
Effects == {"some", "nodeny", "both"}
VARIABLES effect,  (* the policy effect *)
          rules,   (* the matching rules: a function from names to effects, "E" if the evaluation fails *)
          seen,    (* effects in the order of the visits *)
          left,    (* rules which have not been visited, name -> number of visits to come *)
          ans      (* "" while deciding, then allow, deny or err *)
vars == <<effect, rules, seen, left, ans>>

Last(s) == s[Len(s)]
(* what the effector answers: allow, deny, other (no answer yet) *)
Step(s) == CASE effect = "some" -> IF Last(s) = "allow" THEN "allow" ELSE "other"
             [] effect = "nodeny" -> IF Last(s) = "deny" THEN "deny" ELSE "other"
             [] effect = "both" -> IF Last(s) = "deny" \/ (Variant = "eager" /\ Last(s) = "allow") THEN Last(s) ELSE "other"
Final(s) == CASE effect = "some" -> "deny"
              [] effect = "nodeny" -> "allow"
              [] effect = "both" -> IF s = << >> THEN IF Variant = "empty" THEN "allow" ELSE "deny"
                                    ELSE IF Variant = "last" THEN Last(s)
                                    ELSE IF \E i \in 1..Len(s) : s[i] = "allow" THEN "allow"
                                    ELSE IF Variant = "neither" THEN "allow" ELSE s[1]

MInit == /\ effect \in Effects
         /\ \E n \in 0..N : \E f \in [1..n -> Efts \cup {"E"}] : rules = f
         /\ \E d \in SUBSET DOMAIN rules : left = [i \in DOMAIN rules |-> IF i \in d THEN 2 ELSE 1]
         /\ seen = << >> /\ ans = ""
Visit(i) == /\ ans = "" /\ left[i] > 0
            /\ left' = [left EXCEPT ![i] = @ - 1]
            /\ IF rules[i] = "E" THEN ans' = "err" /\ UNCHANGED seen
               ELSE /\ seen' = Append(seen, rules[i])
                    /\ ans' = IF Step(seen') = "other" THEN "" ELSE Step(seen')
            /\ UNCHANGED <<effect, rules>>
Finish == /\ ans = "" /\ \A i \in DOMAIN left : left[i] = 0
          /\ ans' = IF Final(seen) = "allow" THEN "allow" ELSE "deny"
          /\ UNCHANGED <<effect, rules, seen, left>>
MNext == Finish \/ \E i \in DOMAIN rules : Visit(i)
MSpec == MInit /\ [][MNext]_vars /\ WF_vars(MNext)

(* Engine!Decide over the same rules *)
T == {rules[i] : i \in DOMAIN rules} \ {"E"}
Failing == \E i \in DOMAIN rules : rules[i] = "E"
Allowed == LET all == {Eng!Holds(effect, T \cup x) : x \in SUBSET (IF Failing THEN Efts ELSE {})} IN
           (IF Cardinality(all) = 1 THEN {IF b THEN "allow" ELSE "deny" : b \in all} ELSE {})
             \cup (IF Failing THEN {"err"} ELSE {})
Right == ans # "" => ans \in Allowed
Answers == <>(ans # "")
=============================================================================
