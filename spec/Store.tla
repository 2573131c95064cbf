-------------------------------- MODULE Store --------------------------------
(* A store of template variables: what SimpleContext does over its lifetime. *)
EXTENDS Template
\* a partial function from variable names to defined-or-empty values
EmptyStore == [n \in {} |-> Undef]
Has_(st, n) == n \in DOMAIN st
Lookup(st, n) == IF Has_(st, n) THEN Some(st[n]) ELSE None
Put(st, n, v) == [m \in DOMAIN st \cup {n} |-> IF m = n THEN v ELSE st[m]]
Del(st, n) == [m \in DOMAIN st \ {n} |-> st[m]]
\* a name that is no variable name is ignored; an undefined value removes
StoreCall(st, op, n, v) ==
  CASE op = "insert" ->
         IF ~IsVarName(n) THEN [st |-> st, ret |-> None]
         ELSE [st |-> IF v = Undef THEN Del(st, n) ELSE Put(st, n, v), ret |-> Lookup(st, n)]
    [] op = "clear" -> [st |-> EmptyStore, ret |-> None]
    [] op = "get" -> [st |-> st, ret |-> Lookup(st, n)]
    [] op = "expand" -> [st |-> st, ret |-> Some(Expand("uri", <<123>> \o n \o <<125>>, st, TRUE))]
=============================================================================
