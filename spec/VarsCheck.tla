------------------------------ MODULE VarsCheck ------------------------------
(* The structure of templates (Template.Items) against a machine that reads  *)
(* a template character by character, and against the ABNF.                  *)
EXTENDS Template
LOCAL INSTANCE SequencesExt
CONSTANTS MaxLen, Alphabet, Deep     \* Deep: also from the middle of longer templates
VARIABLES t, m
(* the reader: where it is ("out", "in": behind the brace, "name", "mod": in a modifier), the name *)
(* being read and the names read                                           *)
R0 == [at |-> "out", name |-> <<>>, names |-> <<>>]
Read(r, c) ==
  CASE r.at = "out" -> IF c = 123 THEN [r EXCEPT !.at = "in"] ELSE r
    [] r.at = "in" /\ c \in OpChars -> [r EXCEPT !.at = "name"]
    [] r.at \in {"in", "name"} /\ c \in {58, 42} -> [r EXCEPT !.at = "mod"]
    [] r.at \in {"in", "name", "mod"} /\ c = 44 -> [at |-> "name", name |-> <<>>, names |-> Append(r.names, r.name)]
    [] r.at \in {"in", "name", "mod"} /\ c = 125 -> [at |-> "out", name |-> <<>>, names |-> Append(r.names, r.name)]
    [] r.at = "mod" -> r
    [] OTHER -> [r EXCEPT !.at = "name", !.name = Append(@, c)]
Starts == {<<>>} \cup (IF Deep THEN {<<123, 97, 58, 49>>, <<123, 43, 97, 44, 97, 42, 44>>, <<97, 123, 97, 46, 97, 125>>,
                                     <<123, 37, 52>>, <<37, 52>>, <<123, 97, 58, 49, 48, 48>>} ELSE {})
Init == t \in Starts /\ m = FoldLeft(Read, R0, t)
Room == \E p \in Starts : Len(t) < MaxLen + Len(p) /\ StartsWith(t, p)
Next == Room /\ \E c \in Alphabet : t' = Append(t, c) /\ m' = Read(m, c)
Spec == Init /\ [][Next]_<<t, m>>

\* the text of the items, put together again
RECURSIVE Digits(_)
Digits(n) == (IF n < 10 THEN <<>> ELSE Digits(n \div 10)) \o <<48 + (n % 10)>>
RECURSIVE Unparse(_, _, _)
Unparse(items, i, st) ==     \* st: "out" or "first" or "next" variable of an expression
  LET close == IF st = "out" THEN <<>> ELSE <<125>> IN
  IF i > Len(items) THEN close
  ELSE LET it == items[i] IN
    CASE it.k = "lit" -> close \o it.s \o Unparse(items, i + 1, "out")
      [] it.k = "open" -> close \o <<123>> \o (IF it.op = 0 THEN <<>> ELSE <<it.op>>) \o Unparse(items, i + 1, "first")
      [] it.k = "var" -> (IF st = "next" THEN <<44>> ELSE <<>>) \o it.v.name
                         \o (IF it.v.explode THEN <<42>> ELSE IF IsSome(it.v.max) THEN <<58>> \o Digits(it.v.max[1]) ELSE <<>>)
                         \o Unparse(items, i + 1, "next")
Matched == A!Matches(A!Template, t)
Recognised == IsTemplate(t) = Matched
Agrees == Matched =>
  LET items == Items(t) IN
  /\ m.at = "out" /\ m.names = Variables(t)
  /\ \A i \in 1..Len(m.names) : A!Matches(A!TVarname, m.names[i]) /\ IsVarName(m.names[i])
  /\ Unparse(items, 1, "out") = t
  /\ \A i \in 1..Len(items) : items[i].k = "lit" => items[i].s # <<>> /\ ~Has(items[i].s, 123) /\ ~Has(items[i].s, 125)
\* templates are closed under concatenation, and variables add up
Cuts == Matched => \A i \in 0..Len(t) :
  LET u == Upto(t, i)  w == From(t, i + 1) IN
  IsTemplate(u) /\ IsTemplate(w) => Variables(t) = Variables(u) \o Variables(w)
=============================================================================
