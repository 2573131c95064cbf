------------------------------ MODULE BuilderMC ------------------------------
(* Every builder state over small argument sets, every call in each of them. *)
EXTENDS Builder, TLC, Json
CONSTANTS Emit, Small
VARIABLES b, ok
vars == <<b, ok>>
Kinds == {"reference", "iri", "absolute", "relative"}

SchemesB == {<<65>>, <<49>>}                        \* A, 1
PathsB == IF Small THEN {<<>>, <<97>>, <<47, 47, 97>>, <<47, 46, 46, 47, 47, 58>>, <<97, 58, 98>>, <<97, 47, 46, 46, 47, 47, 98>>}
          ELSE {<<>>, <<97>>, <<47>>, <<47, 47, 97>>, <<47, 46, 46, 47, 47, 58>>, <<97, 58, 98>>, <<97, 47, 46, 46, 47, 47, 98>>,
                <<46, 47, 97, 58, 98>>, <<97, 63>>, <<47, 37, 55, 69, 37>>, <<47, 37, 55, 101, 37, 69, 51, 37, 56, 49, 37, 56, 50>>, <<233, 47, 46>>}
UsersB == IF Small THEN {<<58, 64>>, <<117>>} ELSE {<<>>, <<58, 112>>, <<58, 64>>, <<117>>}
PassB == IF Small THEN {Some(<<58>>)} ELSE {None, Some(<<>>), Some(<<58, 113>>), Some(<<47>>)}
HostsB == IF Small THEN {<<>>, <<72>>} ELSE {<<>>, <<72>>, <<91, 58, 58, 49, 93>>, <<91, 58, 58, 49>>, <<37, 55, 69, 233>>}
PortsB == IF Small THEN {<<>>, <<97>>} ELSE {<<>>, <<56>>, <<97>>}
QsB == {<<113, 57344>>, <<35>>}
FsB == {<<102>>, <<57344>>}

Results(s) == [sp \in {"uri", "iri"} |->
                 LET okr == BuildsRef(sp, s) IN
                 [ok |-> okr, s |-> IF okr THEN BuiltText(sp, s) ELSE <<>>]]
\* what the properties say about a builder state
Good(s) ==
  \A sp \in {"uri", "iri"} :
    BuildsRef(sp, s) =>
      LET t == BuiltText(sp, s)  x == Split(t)  c == BComps(s) IN
      /\ \A k \in Kinds : KindOk(k, s) => IsKind(k, sp, t)
      /\ x = OutComps(sp, s)
      /\ ~s.norm => x = c
      /\ (s.norm /\ IsSome(s.scheme)) =>
            /\ Normalized(sp, t, "default") = t          \* the result is a normal form
            /\ (CompsOk(sp, c) => t = Normalized(sp, Join(c), "default"))
      /\ (s.norm /\ s.scheme = None) => x = NormComps(sp, x)
      \* a builder made from the result rebuilds it
      /\ BuildsRef(sp, OfText(t)) /\ BuiltText(sp, OfText(t)) = t
Do(op, x, y) ==
  LET n == Call(b, op, x, y) IN
  /\ b' = n
  /\ ok' = Good(n)
  /\ (Emit => PrintT(ToJson([b |-> b, op |-> op, x |-> x, y |-> y, r |-> Results(n), ens |-> BuiltNeedsGuard(n),
                             sch |-> IsSome(n.scheme), fr |-> IsSome(n.frag)])))
Nop(op) == Do(op, <<>>, None)
Init == b = New /\ ok = TRUE
Next == \/ \E x \in SchemesB : Do("scheme", x, None)
        \/ \E x \in PathsB : Do("path", x, None)
        \/ \E x \in UsersB : Do("userinfo", x, None)
        \/ \E x \in UsersB, y \in PassB : Do("userpass", x, y)
        \/ \E x \in HostsB : Do("host", x, None)
        \/ \E x \in PortsB : Do("port", x, None)
        \/ \E x \in QsB : Do("query", x, None)
        \/ \E x \in FsB : Do("fragment", x, None)
        \/ \E op \in {"unset_scheme", "unset_authority", "userinfo_none", "unset_userinfo", "port_none", "unset_port", "unset_query",
                      "unset_fragment", "normalize", "unset_normalize"} : Nop(op)
Spec == Init /\ [][Next]_vars
Ok == ok
=============================================================================
