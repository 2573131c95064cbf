------------------------------ MODULE Automaton ------------------------------
(***************************************************************************)
(* Every rule of Abnf.tla as a deterministic automaton.  The position      *)
(* (Glushkov) automaton of a syntax tree is computed from the tree; a      *)
(* state of this specification is a rule with a set of positions, and one  *)
(* step consumes one character class.  TLC explores all reachable states   *)
(* and prints each transition, which yields the complete DFA of the rule   *)
(* over all of Unicode (characters with the same class signature behave    *)
(* alike by construction).                                                 *)
(***************************************************************************)
EXTENDS Abnf, TLC, Json

CONSTANT Rules   \* subset of RuleIds

(* Position automaton.  Glu(x, o) numbers the symbols of x from o + 1 on:   *)
(* nul/first/last as usual; prods is a set of <<L, F>>: every position of   *)
(* L can be followed by every position of F.                                *)
RECURSIVE Glu(_, _)
RECURSIVE GluSeq(_, _, _)
RECURSIVE GluAlt(_, _, _)
GluSeq(a, k, acc) ==
  IF k > Len(a) THEN acc
  ELSE LET B == TLCEval(Glu(a[k], acc.n)) IN
       GluSeq(a, k + 1, TLCEval(
         [n |-> B.n, nul |-> acc.nul /\ B.nul,
          first |-> IF acc.nul THEN acc.first \cup B.first ELSE acc.first,
          last  |-> IF B.nul THEN acc.last \cup B.last ELSE B.last,
          prods |-> acc.prods \cup B.prods \cup
                    (IF acc.last = {} \/ B.first = {} THEN {} ELSE {<<acc.last, B.first>>}),
          syms  |-> acc.syms \o B.syms]))
GluAlt(a, k, acc) ==
  IF k > Len(a) THEN acc
  ELSE LET B == TLCEval(Glu(a[k], acc.n)) IN
       GluAlt(a, k + 1, TLCEval(
         [n |-> B.n, nul |-> acc.nul \/ B.nul,
          first |-> acc.first \cup B.first, last |-> acc.last \cup B.last,
          prods |-> acc.prods \cup B.prods, syms |-> acc.syms \o B.syms]))
Glu(x, o) ==
  CASE x.t = "sym" -> [n |-> o + 1, nul |-> FALSE, first |-> {o + 1}, last |-> {o + 1},
                       prods |-> {}, syms |-> <<x.c>>]
    [] x.t = "seq" -> GluSeq(x.a, 1, [n |-> o, nul |-> TRUE, first |-> {}, last |-> {}, prods |-> {}, syms |-> <<>>])
    [] x.t = "alt" -> GluAlt(x.a, 1, [n |-> o, nul |-> FALSE, first |-> {}, last |-> {}, prods |-> {}, syms |-> <<>>])
    [] x.t = "star" -> LET A == TLCEval(Glu(x.a[1], o)) IN
         [A EXCEPT !.nul = TRUE, !.prods = IF A.last = {} THEN @ ELSE @ \cup {<<A.last, A.first>>}]

G == TLCEval([r \in Rules |->
       LET m == TLCEval(Glu(RuleAst(r), 0))
           g == TLCEval(Glu(Alt(<<RuleAst(r), ExceptAst(r)>>), 0)) IN
       \* positions beyond m belong to what is excepted
       [n |-> g.n, m |-> m.n, nul |-> g.nul, first |-> g.first, last |-> g.last, cls |-> g.syms, prods |-> g.prods]])
\* successor positions of a set of positions
Follow(r, q) == UNION {IF pr[1] \cap q = {} THEN {} ELSE pr[2] : pr \in G[r].prods}

\* All class boundaries: the code points at which membership of some class can change.
AllCls == TLCEval(UNION {{G[r].cls[i] : i \in 1..G[r].n} : r \in Rules})
MaxCp == 1114111
Bounds == {0} \cup UNION {UNION {{cls[k][1], cls[k][2] + 1} : k \in 1..Len(cls)} : cls \in AllCls}
\* one representative per elementary interval = the interval start
Starts == {b \in Bounds : b <= MaxCp}
Sig == TLCEval([b \in Starts |-> {cls \in AllCls : InCls(cls, b)}])
\* one representative per signature
Reps == TLCEval({CHOOSE b \in Starts : Sig[b] = g : g \in {Sig[b] : b \in Starts}})
RepOf == TLCEval([b \in Starts |-> CHOOSE x \in Reps : Sig[x] = Sig[b]])

\* does position p of rule r accept representative c
Hit == TLCEval([r \in Rules |-> [c \in Reps |-> {p \in 1..G[r].n : InCls(G[r].cls[p], c)}]])

Start == {0}
Succ(r, q) == IF q = Start THEN G[r].first ELSE Follow(r, q)
Step(r, q, c) == Succ(r, q) \cap Hit[r][c]
Accepting(r, q) == \/ q = Start /\ G[r].nul
                   \/ LET e == q \cap G[r].last IN e /= {} /\ \A p \in e : p <= G[r].m

VARIABLES rule, q
vars == <<rule, q>>
Init == rule \in Rules /\ q = Start
Next == LET f == TLCEval(Succ(rule, q)) IN
        \E c \in Reps :
          /\ q' = f \cap Hit[rule][c]
          /\ UNCHANGED rule
Spec == Init /\ [][Next]_vars

\* emitted once per distinct state: accept flag and the successor under every representative
Emit == LET f == TLCEval(Succ(rule, q)) IN
        PrintT(ToJson([r |-> rule, q |-> q, acc |-> Accepting(rule, q),
                       d |-> {<<c, f \cap Hit[rule][c]>> : c \in Reps}]))
ASSUME PrintT(ToJson([reps |-> Reps, repof |-> {<<b, RepOf[b]>> : b \in Starts}]))
=============================================================================
