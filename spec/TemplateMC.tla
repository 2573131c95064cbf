----------------------------- MODULE TemplateMC ------------------------------
(* Expansion as a dialogue between the expander and a context: the expander  *)
(* asks, the context answers with any value, the same one whenever it is     *)
(* asked for the same variable.  Every finished dialogue is printed for     *)
(* replay.                                                                   *)
EXTENDS Rfc6570Examples, TLC, Json
CONSTANTS Two, Caps, Emit
VARIABLES sp, t, items, s, s2, asked, log, ok
vars == <<sp, t, items, s, s2, asked, log, ok>>
Ops8 == {<<>>, <<43>>, <<35>>, <<46>>, <<47>>, <<59>>, <<63>>, <<38>>}
\* names: x, a.%41
Mods == {<<>>, <<42>>, <<58, 49>>, <<58, 50>>}
\* after an expression: nothing, or a literal of each kind
Lits == IF Two THEN {<<>>} ELSE {<<>>, <<37, 52, 49, 33, 233>>}
Expr(op, vs) == <<123>> \o op \o vs \o <<125>>
Templates ==
  IF ~Two THEN {l1 \o Expr(op, <<120>> \o m) \o l2 : op \in Ops8, m \in Mods \cup {<<58, 57, 57, 57, 57>>}, l1 \in Lits, l2 \in Lits}
  ELSE {Expr(op, <<120>> \o m1 \o <<44>> \o n \o m2) : op \in Ops8, m1 \in Mods, m2 \in Mods \ {<<58, 50>>}, n \in {<<97, 46, 37, 52, 49>>, <<120>>}}
       \cup {Expr(op1, <<120>> \o m1) \o Expr(op2, <<121>>) : op1 \in Ops8, op2 \in Ops8, m1 \in {<<>>, <<42>>}}
\* "", "/", "%", "é%4", "%C3%A9b" (one encoded character and more), "a b", "%e3%81%ZZ"
Strs == {<<>>, <<47, 97>>, <<233, 37, 52>>, <<37, 67, 51, 37, 65, 57, 98>>, <<37, 101, 51, 37, 56, 49, 90>>}
Values == IF Two THEN {Undef, Str(<<>>), Str(<<37, 67, 51, 37, 65, 57, 47>>), List(<<>>), List(<<<<33>>, <<>>>>), Assoc(<<<<<<58>>, <<>>>>>>)}
          ELSE {Undef, List(<<>>), Assoc(<<>>), List(<<<<>>>>), List(<<<<97, 44>>, <<>>, <<233>>>>),
                List(<<<<>>, <<37, 52, 49>>>>), Assoc(<<<<<<>>, <<>>>>>>), Assoc(<<<<<<61>>, <<233>>>>, <<<<97>>, <<>>>>>>)}
               \cup {Str(x) : x \in Strs}
Init == /\ sp \in {"uri", "iri"} /\ t \in Templates /\ items = Items(t)
        /\ \E c \in Caps : s = Machine(IF c = 1000 THEN None ELSE Some(c)) /\ s2 = s
        /\ asked = Undef /\ log = <<>> /\ ok = TRUE
Do(op, val) ==
  LET name == IF s.ph \in {"type", "value"} THEN items[s.pos].v.name ELSE <<>> IN
  /\ CanStep(items, s, op, name)
  /\ s' = Step(sp, items, s, op, val, TRUE)
  /\ s2' = Step(sp, items, s2, op, val, FALSE)
  /\ UNCHANGED <<sp, t, items>>
EnvOf(lg) == [n \in {lg[i].n : i \in 1..Len(lg)} |-> (CHOOSE x \in {lg[i] : i \in 1..Len(lg)} : x.n = n).v]
\* which characters an expansion may contain besides literals
OutOk(o) == \A i \in 1..Len(o) : o[i] = 37 => IsTrip(o, i)
Start == Do("start", Undef) /\ ok' = (s'.out = (IF items[1].k = "lit" THEN Literal(sp, items[1].s) ELSE <<>>)) /\ UNCHANGED <<asked, log>>
Type == \E v \in Values :
          /\ s.cap # None => v # List(<<<<>>>>)
          /\ Do("type", v) /\ asked' = v
          /\ \A i \in 1..Len(log) : log[i].n = items[s.pos].v.name => log[i].v = v
          /\ log' = Append(log, [n |-> items[s.pos].v.name, v |-> v]) /\ UNCHANGED ok
Value == Do("value", asked) /\ UNCHANGED <<asked, log>> /\ ok' = (StartsWith(s'.out, s.out) /\ OutOk(s'.out))
End == /\ Do("end", Undef) /\ UNCHANGED <<asked, log>>
       /\ ok' = LET full == Expand(sp, t, EnvOf(log), TRUE) IN
                /\ (s.err = "") = (s2.err = "")
                /\ s.err = "" => Variables(t) = [i \in 1..Len(log) |-> log[i].n]
                /\ (s.err = "type") => ~Expandable(t, EnvOf(log))
                /\ (s.err = "") => /\ s.out = full /\ s2.out = Expand(sp, t, EnvOf(log), FALSE)
                                   /\ Expandable(t, EnvOf(log))
                /\ (s.err = "write") => Len(s.out) > s.cap[1] /\ StartsWith(full, s.out)
       /\ (Emit => PrintT(ToJson([sp |-> sp, t |-> t, log |-> log, o |-> s.out, o2 |-> s2.out, err |-> s.err, cap |-> s.cap])))
Next == Start \/ Type \/ Value \/ End
Spec == Init /\ [][Next]_vars
Ok == ok
ASSUME Rfc6570Ok
=============================================================================
