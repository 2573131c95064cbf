------------------------------ MODULE IriCheck ------------------------------
(* The recognisers and the component split of Iri.tla against the ABNF, on  *)
(* every string up to MaxLen over Alphabet.                                 *)
EXTENDS Iri, FiniteSets
CONSTANTS MaxLen, Alphabet
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s
SPs == {"uri", "iri"}

KindsAgree == \A sp \in SPs :
  /\ IsIri(sp, s)       = A!Matches(A!Iri(sp), s)
  /\ IsAbsolute(sp, s)  = A!Matches(A!AbsoluteIri(sp), s)
  /\ IsRelative(sp, s)  = A!Matches(A!RelativeRef(sp), s)
  /\ IsReference(sp, s) = A!Matches(A!IriReference(sp), s)
ComponentsAgree == \A sp \in SPs :
  /\ IsAuthority(sp, s) = A!Matches(A!Authority(sp), s)
  /\ IsUserinfo(sp, s)  = A!Matches(A!Userinfo(sp), s)
  /\ IsHost(sp, s)      = A!Matches(A!Host(sp), s)
  /\ IsRegName(sp, s)   = A!Matches(A!RegName(sp), s)
  /\ IsPathChars(sp, s) = (A!Matches(A!Path(sp), s) \/ (StartsSlash2(s) /\ A!Matches(A!PathAbempty(sp), s)))
  /\ IsSegment(sp, s)   = A!Matches(A!Segment(sp), s)
  /\ IsQuery(sp, s)     = A!Matches(A!Query(sp), s)
  /\ IsFragment(sp, s)  = A!Matches(A!Fragment(sp), s)
  /\ IsScheme(s) = A!Matches(A!Scheme, s)
  /\ IsPort(s) = A!Matches(A!Port, s)
  /\ IsIpv4(s) = A!Matches(A!IPv4, s)
\* splitting loses nothing, and is the only decomposition that fits the grammar
Cuts == 0..Len(s)
SplitUnique == \A sp \in SPs :
  IsReference(sp, s) =>
    /\ Join(Split(s)) = s
    /\ \A sc \in {None} \cup {Some(Upto(s, i)) : i \in Cuts}, fr \in {None} \cup {Some(From(s, i + 1)) : i \in Cuts} :
       \A i, j \in Cuts :
         LET x(au, q) == [scheme |-> sc, auth |-> au, path |-> SubSeq(s, i + 1, j), query |-> q, frag |-> fr]
             n == IF IsSome(sc) THEN Len(sc[1]) + 1 ELSE 0
             m == IF IsSome(fr) THEN Len(fr[1]) + 1 ELSE 0
             e == Len(s) - m
         IN (j >= i /\ n <= i /\ j <= e) =>
            LET au == IF i = n THEN None ELSE Some(SubSeq(s, n + 3, i))
                q  == IF j = e THEN None ELSE Some(SubSeq(s, j + 2, e))
            IN (Join(x(au, q)) = s /\ CompsOk(sp, x(au, q))) => x(au, q) = Split(s)
AuthUnique == IsAuthority("iri", s) => JoinAuth(SplitAuth(s)) = s
=============================================================================
