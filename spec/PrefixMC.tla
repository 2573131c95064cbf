------------------------------ MODULE PrefixMC -------------------------------
(* Values of octets: what a prefix modifier counts where triplets pass, and  *)
(* what decoding makes of octets that form no character.  A value is built   *)
(* unit by unit; every value with every modifier is printed for replay.     *)
EXTENDS Template, TLC, Json
CONSTANTS MaxUnits, MaxPrefix, Pieces_, Ops_
VARIABLES v
\* %41 %80 %bf %C3 %E0 %e3 %ed %F0 %f4 %90 ... by number, and what is no triplet
Piece(p) == IF p = 1000 THEN <<37>> ELSE IF p = 1001 THEN <<37, 52>> ELSE IF p = 1002 THEN <<98>> ELSE IF p = 1003 THEN <<233>>
            ELSE IF p % 2 = 0 THEN Trip(p) ELSE LET x == Trip(p) IN <<37, LowerC(x[2]), LowerC(x[3])>>
Init == v = <<>>
Next == Len(v) < MaxUnits /\ \E p \in Pieces_ : v' = Append(v, p)
Spec == Init /\ [][Next]_v
Value == Pieces(v, LAMBDA i : Piece(v[i]))
T(op, n) == <<123>> \o op \o <<120>> \o (IF n = 0 THEN <<>> ELSE <<58, 48 + n>>) \o <<125>>
Env(x) == [n \in {<<120>>} |-> Str(x)]
Out(op, n, x) == Expand("uri", T(op, n), Env(x), TRUE)
OpsMC == {<<43>>}
OpsAll == {<<>>, <<43>>, <<35>>}
Prefixes ==
  \A op \in Ops_ :
    LET x == Value
        o == [n \in 0..MaxPrefix |-> Out(op, n, x)]
    IN \* a longer prefix continues a shorter one and ends in the whole value, which is long enough when it has no more characters
       /\ \A n \in 1..(MaxPrefix - 1) : StartsWith(o[n + 1], o[n])
       /\ \A n \in 1..MaxPrefix : StartsWith(o[0], o[n]) /\ (n >= Len(x) => o[n] = o[0])
       \* every prefix is text of a template and of a URI
       /\ \A n \in 0..MaxPrefix : PctOk(o[n]) /\ IsAscii(o[n])
       \* what is taken does not depend on what follows, where reserved characters do not pass
       /\ op = <<>> => \A n \in 1..MaxPrefix : o[n] = Out(op, 0, Upto(x, Min2(n, Len(x))))
       /\ \A n \in 0..MaxPrefix :
            PrintT(ToJson([sp |-> "uri", t |-> T(op, n), log |-> <<[n |-> <<120>>, v |-> Str(x)]>>, o |-> o[n], o2 |-> o[n], err |-> "", cap |-> None]))
=============================================================================
