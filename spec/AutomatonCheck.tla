--------------------------- MODULE AutomatonCheck ---------------------------
(* The automata of Automaton.tla recognise what the syntax trees of         *)
(* Abnf.tla denote: on every string up to MaxLen over Alphabet, following   *)
(* the automaton agrees with the denotational Matches.                      *)
EXTENDS Automaton
CONSTANTS MaxLen, Alphabet
VARIABLE s
cvars == <<rule, q, s>>
CInit == Init /\ s = <<>>
CNext == /\ Len(s) < MaxLen
         /\ \E c \in Alphabet :
              /\ s' = Append(s, c)
              /\ q' = {p \in Succ(rule, q) : InCls(G[rule].cls[p], c)}
              /\ UNCHANGED rule
CSpec == CInit /\ [][CNext]_cvars
Agree == Accepting(rule, q) = (Matches(RuleAst(rule), s) /\ ~Matches(ExceptAst(rule), s))
=============================================================================
