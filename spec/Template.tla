------------------------------ MODULE Template ------------------------------
(* URI templates (RFC 6570): structure, variables, expansion with a fixed    *)
(* assignment, and expansion that asks a context for one variable after the  *)
(* other (a state machine).                                                 *)
EXTENDS Codec
LOCAL INSTANCE SequencesExt

(* ---- structure ---------------------------------------------------------- *)
OpChars == {43, 35, 46, 47, 59, 63, 38}             \* + # . / ; ? &
Op(first, sep, named, ifemp, reserved) ==
  [first |-> first, sep |-> sep, named |-> named, ifemp |-> ifemp, reserved |-> reserved]
OpProps(op) ==                                       \* appendix A; 0: no operator
  CASE op = 0  -> Op(<<>>, <<44>>, FALSE, <<>>, FALSE)
    [] op = 43 -> Op(<<>>, <<44>>, FALSE, <<>>, TRUE)
    [] op = 35 -> Op(<<35>>, <<44>>, FALSE, <<>>, TRUE)
    [] op = 46 -> Op(<<46>>, <<46>>, FALSE, <<>>, FALSE)
    [] op = 47 -> Op(<<47>>, <<47>>, FALSE, <<>>, FALSE)
    [] op = 59 -> Op(<<59>>, <<59>>, TRUE, <<>>, FALSE)
    [] op = 63 -> Op(<<63>>, <<38>>, TRUE, <<61>>, FALSE)
    [] op = 38 -> Op(<<38>>, <<38>>, TRUE, <<61>>, FALSE)
(* A recogniser whose cost does not grow faster than the text (VarsCheck: it is the ABNF). *)
IsLiterals(s) == AllOk(s, LAMBDA c : A!InCls(A!cTLit, c))
IsVarName(n) == LET k == SplitAt(n, 46) IN
  /\ \A i \in 1..Len(k) : k[i] # <<>>
  /\ AllOk(n, LAMBDA c : IsAlpha(c) \/ IsDigit(c) \/ c = 95 \/ c = 46)
IsVarSpec(s) ==
  LET k == Find(s, 1, {58}) IN
  IF s # <<>> /\ s[Len(s)] = 42 THEN IsVarName(Upto(s, Len(s) - 1))
  ELSE IF k = 0 THEN IsVarName(s)
  ELSE /\ IsVarName(Upto(s, k - 1)) /\ Len(s) - k \in 1..4
       /\ s[k + 1] # 48 /\ \A i \in (k + 1)..Len(s) : IsDigit(s[i])
IsExprBody(b) == LET v == SplitAt(IF b # <<>> /\ b[1] \in OpChars THEN Tail(b) ELSE b, 44) IN
  \A i \in 1..Len(v) : IsVarSpec(v[i])
IsTemplate(t) == LET p == SplitAt(t, 123) IN
  /\ IsLiterals(p[1])
  /\ \A i \in 2..Len(p) : LET c == Find(p[i], 1, {125}) IN
       c # 0 /\ IsExprBody(Upto(p[i], c - 1)) /\ IsLiterals(From(p[i], c + 1))
RECURSIVE Num(_, _)
Num(s, i) == IF i > Len(s) THEN 0 ELSE (s[i] - 48) * (10 ^ (Len(s) - i)) + Num(s, i + 1)
\* one variable specification; max: <<>> or <<max-length>>
VarSpec(s) ==
  IF s # <<>> /\ s[Len(s)] = 42 THEN [name |-> Upto(s, Len(s) - 1), explode |-> TRUE, max |-> None]
  ELSE LET k == Find(s, 1, {58}) IN
       IF k = 0 THEN [name |-> s, explode |-> FALSE, max |-> None]
       ELSE [name |-> Upto(s, k - 1), explode |-> FALSE, max |-> Some(Num(From(s, k + 1), 1))]
VarSpecs(s) == FoldLeft(LAMBDA x, v : Append(x, VarSpec(v)), <<>>, SplitAt(s, 44))
\* The items of a template in order: literals, the opening of an expression, its variables.
LitItem(s) == [k |-> "lit", s |-> s, op |-> 0, v |-> VarSpec(<<>>)]
OpenItem(op) == [k |-> "open", s |-> <<>>, op |-> op, v |-> VarSpec(<<>>)]
VarItem(op, v) == [k |-> "var", s |-> <<>>, op |-> op, v |-> v]
ExprItems(body) ==
  LET op == IF body[1] \in OpChars THEN body[1] ELSE 0
      vs == VarSpecs(IF op = 0 THEN body ELSE Tail(body))
  IN <<OpenItem(op)>> \o [i \in 1..Len(vs) |-> VarItem(op, vs[i])]
Items(t) ==
  Consume(t, LAMBDA i :
    IF t[i] = 123 THEN LET c == Find(t, i, {125}) IN [o |-> ExprItems(SubSeq(t, i + 1, c - 1)), n |-> c + 1 - i]
    ELSE LET o == Find(t, i, {123})
             e == IF o = 0 THEN Len(t) ELSE o - 1
         IN [o |-> <<LitItem(SubSeq(t, i, e))>>, n |-> e + 1 - i])
Variables(t) == FoldLeft(LAMBDA x, it : IF it.k = "var" THEN Append(x, it.v.name) ELSE x, <<>>, Items(t))

(* ---- values ------------------------------------------------------------- *)
Undef == [k |-> "undef", s |-> <<>>, l |-> <<>>, a |-> <<>>]
Str(s) == [k |-> "str", s |-> s, l |-> <<>>, a |-> <<>>]
List(l) == [k |-> "list", s |-> <<>>, l |-> l, a |-> <<>>]
Assoc(a) == [k |-> "assoc", s |-> <<>>, l |-> <<>>, a |-> a]        \* a: pairs <<name, value>>
Composite(v) == v.l # <<>> \/ v.a # <<>>                              \* non-empty list or associative array
Defined(v) == v.k = "str" \/ Composite(v)

(* ---- encoding ----------------------------------------------------------- *)
\* Where reserved characters and triplets pass, what counts as one character of the value:
\* a character, the triplets of one encoded character, any other triplet, a stray percent.
Unit(sp, s, i) ==                                      \* [o |-> output, n |-> length in s]
  IF s[i] = 37 THEN
    IF ~IsTrip(s, i) THEN [o |-> Trip(37), n |-> 1]
    ELSE LET n == LeadLen(TripVal(s, i))  run == TripRun(s, i, n) IN
         IF n > 0 /\ Len(run) = n /\ Scalar(run) >= 0 THEN [o |-> SubSeq(s, i, i + 3 * n - 1), n |-> 3 * n]
         ELSE [o |-> SubSeq(s, i, i + 2), n |-> 3]
  ELSE [o |-> EncodeChar(sp, "character", s[i]), n |-> 1]
\* the first max of them
Units(sp, s, max) ==
  FoldLeftDomain(LAMBDA x, i : IF i < x.at \/ x.left = 0 THEN x
                               ELSE LET u == Unit(sp, s, i) IN [at |-> i + u.n, o |-> x.o \o u.o, left |-> x.left - 1],
                 [at |-> 1, o |-> <<>>, left |-> max], s).o
Literal(sp, s) == Consume(s, LAMBDA i : Unit(sp, s, i))
Escape(sp, reserved, s) == IF reserved THEN Literal(sp, s) ELSE Encode(sp, "unreserve", s)
EscapePrefix(sp, reserved, s, max) ==
  IF max = None THEN Escape(sp, reserved, s)
  ELSE IF reserved THEN Units(sp, s, max[1]) ELSE Encode(sp, "unreserve", Upto(s, Min2(max[1], Len(s))))

(* ---- expansion of one variable (section 3.2.1, appendix A) --------------- *)
NamedText(p, name, text) == name \o (IF text = <<>> THEN p.ifemp ELSE <<61>> \o text)
\* lax: whether a list whose only member is empty counts as a non-empty value of the variable;
\* the RFC can be read both ways
VarText(sp, op, v, val, lax) ==
  LET p == OpProps(op)
      e(s) == Escape(sp, p.reserved, s)
  IN CASE val.k = "str" -> LET x == EscapePrefix(sp, p.reserved, val.s, v.max) IN
                           IF p.named THEN NamedText(p, v.name, x) ELSE x
       [] val.k = "list" /\ ~v.explode ->
            LET x == JoinSep([i \in 1..Len(val.l) |-> e(val.l[i])], <<44>>) IN
            IF ~p.named THEN x ELSE IF lax THEN v.name \o <<61>> \o x ELSE NamedText(p, v.name, x)
       [] val.k = "assoc" /\ ~v.explode ->
            LET x == JoinSep([i \in 1..Len(val.a) |-> e(val.a[i][1]) \o <<44>> \o e(val.a[i][2])], <<44>>) IN
            IF ~p.named THEN x ELSE NamedText(p, v.name, x)
       [] val.k = "list" /\ v.explode ->
            JoinSep([i \in 1..Len(val.l) |-> IF p.named THEN NamedText(p, v.name, e(val.l[i])) ELSE e(val.l[i])], p.sep)
       [] val.k = "assoc" /\ v.explode ->
            JoinSep([i \in 1..Len(val.a) |->
                       IF p.named THEN NamedText(p, e(val.a[i][1]), e(val.a[i][2]))
                       ELSE e(val.a[i][1]) \o <<61>> \o e(val.a[i][2])], p.sep)
\* a prefix of a composite value is an error
Refused(v, val) == IsSome(v.max) /\ Composite(val)

(* ---- expansion as a machine ---------------------------------------------- *)
(* ph: "idle"; "type"/"value": the context is asked for the type / the value  *)
(* of the variable at pos; "closing": the end is to be announced; "done".    *)
(* cap: None, or Some(n) for a sink that refuses everything after n          *)
(* characters.  fresh: no variable of the current expression was written.    *)
RECURSIVE Advance(_, _, _)
Advance(sp, items, s) ==
  IF IsSome(s.cap) /\ Len(s.out) > s.cap[1] THEN [s EXCEPT !.err = "write", !.ph = "closing"]
  ELSE IF s.pos > Len(items) THEN [s EXCEPT !.ph = "closing"]
  ELSE LET it == items[s.pos] IN
       CASE it.k = "lit" -> Advance(sp, items, [s EXCEPT !.out = @ \o Literal(sp, it.s), !.pos = @ + 1])
         [] it.k = "open" -> Advance(sp, items, [s EXCEPT !.fresh = TRUE, !.pos = @ + 1])
         [] it.k = "var" -> [s EXCEPT !.ph = "type"]
Machine(cap) == [ph |-> "idle", pos |-> 1, out |-> <<>>, fresh |-> TRUE, err |-> "", cap |-> cap]
Write(sp, items, s, val, lax) ==
  LET it == items[s.pos]  p == OpProps(it.op) IN
  IF ~Defined(val) THEN s
  ELSE [s EXCEPT !.out = @ \o (IF s.fresh THEN p.first ELSE p.sep) \o VarText(sp, it.op, it.v, val, lax), !.fresh = FALSE]
\* the steps, and when each may happen
CanStep(items, s, op, name) ==
  CASE op = "start" -> s.ph = "idle"
    [] op \in {"type", "value"} -> s.ph = op /\ items[s.pos].v.name = name
    [] op = "end" -> s.ph = "closing"
    [] OTHER -> FALSE
Step(sp, items, s, op, val, lax) ==
  CASE op = "start" -> Advance(sp, items, [s EXCEPT !.ph = "type"])
    [] op = "type" -> IF Refused(items[s.pos].v, val) THEN [s EXCEPT !.err = "type", !.ph = "closing"]
                      ELSE [s EXCEPT !.ph = "value"]
    [] op = "value" -> Advance(sp, items, [Write(sp, items, s, val, lax) EXCEPT !.pos = @ + 1])
    [] op = "end" -> [s EXCEPT !.ph = "done"]

(* ---- expansion with a fixed assignment: a function ------------------------ *)
ExpandItem(sp, env, lax, x, it) ==                     \* x: [out, fresh]
  CASE it.k = "lit" -> [x EXCEPT !.out = @ \o Literal(sp, it.s)]
    [] it.k = "open" -> [x EXCEPT !.fresh = TRUE]
    [] it.k = "var" ->
         LET val == IF it.v.name \in DOMAIN env THEN env[it.v.name] ELSE Undef  p == OpProps(it.op) IN
         IF ~Defined(val) THEN x
         ELSE [out |-> x.out \o (IF x.fresh THEN p.first ELSE p.sep) \o VarText(sp, it.op, it.v, val, lax), fresh |-> FALSE]
Expand(sp, t, env, lax) == FoldLeft(LAMBDA x, it : ExpandItem(sp, env, lax, x, it), [out |-> <<>>, fresh |-> TRUE], Items(t)).out
Expandable(t, env) == LET items == Items(t) IN
  \A i \in 1..Len(items) : items[i].k = "var" =>
     LET v == items[i].v IN v.name \in DOMAIN env => ~Refused(v, env[v.name])
=============================================================================
