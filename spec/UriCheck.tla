------------------------------ MODULE UriCheck ------------------------------
(* Properties of the conversion to URIs and of the password operators        *)
(* themselves, on every string up to MaxLen over Alphabet.                   *)
EXTENDS Mutate, Codec
CONSTANTS MaxLen, Alphabet
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s
Kinds == {"iri", "reference", "absolute", "relative", "query", "fragment"}
MapO(o, f(_)) == IF IsSome(o) THEN Some(f(o[1])) ELSE None

\* a text of a kind of IRIs becomes a text of the same kind of URIs, and only such a text does
ToUriKind == \A k \in Kinds : IsKind(k, "iri", s) => IsKind(k, "uri", ToUri(s))
ToUriFixed == /\ ToUri(ToUri(s)) = ToUri(s) /\ (ToUri(s) = s) = IsAscii(s)
              /\ \A k \in Kinds : IsKind(k, "uri", s) = (IsKind(k, "iri", s) /\ IsAscii(s))
\* component by component
ToUriSplit == IsReference("iri", s) =>
  LET x == Split(s)  y == Split(ToUri(s)) IN
  y = [scheme |-> x.scheme, auth |-> MapO(x.auth, ToUri), path |-> ToUri(x.path), query |-> MapO(x.query, ToUri),
       frag |-> MapO(x.frag, ToUri)]
\* nothing is lost: both decode to the same octets
ToUriDecode == Decode(Utf8Str(ToUri(s))) = Decode(Utf8Str(s))

(* passwords; texts with an authority are where something can happen *)
PSpec == s \in {<<>>, <<47, 47>>, <<97, 58, 47, 47>>} /\ [][Next]_s
Alts == {<<>>, <<42>>, <<58, 65>>}
P == PwRange(s)
PwFrame == IsReference("iri", s) =>
  /\ P.has = IsSome(PwOf(s))
  /\ ~P.has => PwMasked(s) = s /\ PwRemoved(s) = s
  /\ \A a \in Alts :
       LET r == PwReplaced(s, a)  x == Split(s)  y == Split(r) IN
       /\ \A k \in Kinds \ {"query", "fragment"} : IsKind(k, "iri", s) = IsKind(k, "iri", r)
       /\ P.has => PwOf(r) = Some(a)
       /\ [y EXCEPT !.auth = None] = [x EXCEPT !.auth = None]
       /\ IsSome(x.auth) =>
            LET u == SplitAuth(x.auth[1])  v == SplitAuth(y.auth[1]) IN
            /\ u.host = v.host /\ u.port = v.port
            /\ MapO(u.user, LAMBDA t : SplitUser(t).name) = MapO(v.user, LAMBDA t : SplitUser(t).name)
       \* masking and removal reveal nothing of the password
       /\ PwMasked(r) = PwMasked(s) /\ (P.has => PwRemoved(r) = PwRemoved(s))
  /\ PwOf(PwRemoved(s)) = None /\ PwRemoved(PwRemoved(s)) = PwRemoved(s)
  /\ P.has => PwOf(PwMasked(s)) = Some(<<>>)
  /\ \A k \in Kinds \ {"query", "fragment"} : IsKind(k, "iri", s) = IsKind(k, "iri", PwRemoved(s))
=============================================================================
