----------------------------- MODULE PolicyText -----------------------------
(* The text of a policy file: one rule per line, columns separated by commas, blanks before a  *)
(* column ignored, columns optionally in double quotes (a quote inside is doubled; commas and    *)
(* line feeds inside are text), lines which begin with # and empty lines ignored.             *)
(* A text is a sequence of characters. Every other character stands for itself.               *)
EXTENDS Naturals, Sequences, SequencesExt
Q == "\""
NL == "\n"
Bad == [bad |-> TRUE]
(* automaton: st the state, f the field so far, r the fields of the line, out the rules *)
EndField(a) == [a EXCEPT !.r = Append(@, a.f), !.f = << >>, !.st = "field"]
EndLine(a) == LET r == Append(a.r, a.f) IN
              [st |-> "line", f |-> << >>, r |-> << >>, out |-> IF r = << << >> >> THEN a.out ELSE Append(a.out, r)]
Put(a, c) == [a EXCEPT !.f = Append(@, c)]
To(a, st) == [a EXCEPT !.st = st]
StepField(a, c) == CASE c = " " -> a
                     [] c = Q -> To(a, "quoted")
                     [] c = "," -> EndField(a)
                     [] c = NL -> EndLine(a)
                     [] OTHER -> Put(To(a, "plain"), c)
StepChar(a, c) ==
  IF a = Bad THEN Bad
  ELSE CASE a.st = "line" -> (CASE c = NL -> a [] c = "#" -> To(a, "comment") [] OTHER -> StepField(To(a, "field"), c))
         [] a.st = "comment" -> IF c = NL THEN To(a, "line") ELSE a
         [] a.st = "field" -> StepField(a, c)
         [] a.st = "plain" -> (CASE c = "," -> EndField(a) [] c = NL -> EndLine(a) [] c = Q -> Bad [] OTHER -> Put(a, c))
         [] a.st = "quoted" -> IF c = Q THEN To(a, "quote") ELSE Put(a, c)
         [] a.st = "quote" -> (CASE c = Q -> Put(To(a, "quoted"), c) [] c = "," -> EndField(a) [] c = NL -> EndLine(a) [] OTHER -> Bad)
AtEnd(a) == IF a = Bad THEN Bad
            ELSE CASE a.st \in {"line", "comment"} -> [out |-> a.out]
                   [] a.st = "quoted" -> Bad
                   [] OTHER -> [out |-> EndLine(a).out]
Start == [st |-> "line", f |-> << >>, r |-> << >>, out |-> << >>]
Parse(text) == AtEnd(FoldLeft(LAMBDA a, c : StepChar(a, c), Start, text))

(* writing, with as few quotes as possible *)
NeedsQuotes(v) == v # << >> /\ (Head(v) = " " \/ \E i \in 1..Len(v) : v[i] \in {",", Q, NL, "#"})
RECURSIVE Double(_)
Double(v) == IF v = << >> THEN << >> ELSE (IF Head(v) = Q THEN <<Q, Q>> ELSE <<Head(v)>>) \o Double(Tail(v))
FormatValue(v) == IF NeedsQuotes(v) THEN <<Q>> \o Double(v) \o <<Q>> ELSE v
RECURSIVE FormatRule(_)
FormatRule(r) == IF Len(r) = 1 THEN FormatValue(r[1]) \o <<NL>> ELSE FormatValue(Head(r)) \o <<",", " ">> \o FormatRule(Tail(r))
Format(rules) == FlattenSeq([i \in 1..Len(rules) |-> FormatRule(rules[i])])
=============================================================================
