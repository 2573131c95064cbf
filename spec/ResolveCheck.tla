---------------------------- MODULE ResolveCheck ----------------------------
(* Properties of the resolution and normalization operators themselves, on  *)
(* all bases and references composed of few tokens.                         *)
EXTENDS Resolve, RfcExamples, FiniteSets
CONSTANTS MaxBase, MaxRef
VARIABLES b, r, nb, nr
vars == <<b, r, nb, nr>>
ASSUME \A i \in 1..Len(Resolution54) : Resolved("uri", Base54, Resolution54[i][1], "none") = Resolution54[i][2]
ASSUME \A i \in 1..Len(Normal62) : Normalized("uri", Normal62[i][1], "default") = Normal62[i][2]

\* "//", "/", "..", ".", "A", "%2e", ":", "?"
Tok == {<<47, 47>>, <<47>>, <<46, 46>>, <<46>>, <<65>>, <<37, 50, 101>>, <<58>>}
RefTok == Tok \cup {<<63>>, <<35>>}
Init == b = <<83, 58>> /\ r = <<>> /\ nb = 0 /\ nr = 0          \* "S:"
GrowBase == nr = 0 /\ nb < MaxBase /\ \E t \in Tok : b' = b \o t /\ nb' = nb + 1 /\ UNCHANGED <<r, nr>>
GrowRef  == nr < MaxRef /\ \E t \in RefTok : r' = r \o t /\ nr' = nr + 1 /\ UNCHANGED <<b, nb>>
Next == GrowBase \/ GrowRef
Spec == Init /\ [][Next]_vars

Usable == IsAbsolute("uri", b) /\ IsReference("uri", r)
T == Target(Split(b), Split(r))
R(mode) == Resolved("uri", b, r, mode)
Valid == Usable => \A m \in {"none", "default", "preserve"} : IsIri("uri", R(m))
\* resolving and then normalizing is resolving with normalization
Compose == Usable => Normalized("uri", R("none"), "default") = R("default")
\* the components other than the path are exactly those of the target
Parts == Usable => LET x == Split(R("none")) IN
   x.scheme = T.scheme /\ x.auth = T.auth /\ x.query = T.query /\ x.frag = T.frag
\* the safeguard is used exactly when it is needed, and only prepends "/."
GuardExact == Usable =>
   LET p == IF T.rd THEN RemoveDots(T.path) ELSE T.path
       x == Split(R("none"))
   IN IF NeedsGuard(T, "none") THEN x.path = <<47, 46>> \o p ELSE x.path = p
\* a reference with a scheme does not depend on the base; an IRI resolved against anything is itself modulo dots
Absolute == (Usable /\ IsSome(Split(r).scheme)) => R("none") = Out("uri", SelfTarget(r), "none")
\* idempotence of both normal forms; the strict normal form implies the plain one
Idem == IsIri("uri", b) =>
   LET n == Normalized("uri", b, "default")  m == Normalized("uri", b, "preserve") IN
   /\ IsIri("uri", n) /\ IsIri("uri", m)
   /\ Normalized("uri", n, "default") = n
   /\ Normalized("uri", m, "preserve") = m
   /\ Normalized("uri", m, "default") = n
   /\ (IsNormalizedRfc("uri", b) => IsNormalized("uri", b))
   /\ NeedsGuard(SelfTarget(b), "default") = NeedsGuard(SelfTarget(n), "default")
\* normalization commutes with resolving a same-document reference
SameDoc == (Usable /\ r = <<>>) => R("default") = Normalized("uri", b, "default")
=============================================================================
