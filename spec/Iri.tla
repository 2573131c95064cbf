--------------------------------- MODULE Iri ---------------------------------
(***************************************************************************)
(* Fast recognisers and the component split of RFC 3986/3987.  IriCheck    *)
(* proves them equivalent to the ABNF (Abnf.tla) on bounded strings.       *)
(***************************************************************************)
EXTENDS Text
A == INSTANCE Abnf

IsPCharC(sp, c)  == IsUnres(sp, c) \/ IsSubDelim(c) \/ c = 58 \/ c = 64
IsRegC(sp, c)    == IsUnres(sp, c) \/ IsSubDelim(c)
IsUserC(sp, c)   == IsRegC(sp, c) \/ c = 58
IsFragC(sp, c)   == IsPCharC(sp, c) \/ c = 47 \/ c = 63
IsQueryC(sp, c)  == IsFragC(sp, c) \/ (sp = "iri" /\ IsPriv(c))

IsScheme(s) == s # <<>> /\ IsAlpha(s[1]) /\ \A i \in 2..Len(s) : IsAlpha(s[i]) \/ IsDigit(s[i]) \/ s[i] \in {43, 45, 46}
IsPort(s) == \A i \in 1..Len(s) : IsDigit(s[i])
IsUserinfo(sp, s) == AllOk(s, LAMBDA c : IsUserC(sp, c))
IsRegName(sp, s)  == AllOk(s, LAMBDA c : IsRegC(sp, c))
IsIpLit(s) == s # <<>> /\ s[1] = 91 /\ A!Matches(A!IPLiteral, s)
IsIpv4(s)  == s # <<>> /\ IsDigit(s[1]) /\ (\A i \in 1..Len(s) : IsDigit(s[i]) \/ s[i] = 46) /\ A!Matches(A!IPv4, s)
IsHost(sp, s) == IF s # <<>> /\ s[1] = 91 THEN IsIpLit(s) ELSE IsRegName(sp, s)
IsPathChars(sp, s) == AllOk(s, LAMBDA c : IsPCharC(sp, c) \/ c = 47)
IsSegment(sp, s)   == AllOk(s, LAMBDA c : IsPCharC(sp, c))
IsQuery(sp, s)     == AllOk(s, LAMBDA c : IsQueryC(sp, c))
IsFragment(sp, s)  == AllOk(s, LAMBDA c : IsFragC(sp, c))

StartsSlash(p)  == p # <<>> /\ p[1] = 47
StartsSlash2(p) == Len(p) >= 2 /\ p[1] = 47 /\ p[2] = 47
\* first segment contains a colon
ColonFirstSeg(p) == LET k == Find(p, 1, {58, 47}) IN k # 0 /\ p[k] = 58

(* authority = [ userinfo "@" ] host [ ":" port ] *)
SplitAuth(a) ==
  LET at == Find(a, 1, {64})
      user == IF at = 0 THEN None ELSE Some(Upto(a, at - 1))
      rest == From(a, at + 1)
      cl == IF rest # <<>> /\ rest[1] = 91 THEN Find(rest, 1, {93}) ELSE 0
      co == Find(rest, cl + 1, {58})
  IN [user |-> user, host |-> IF co = 0 THEN rest ELSE Upto(rest, co - 1),
      port |-> IF co = 0 THEN None ELSE Some(From(rest, co + 1))]
JoinAuth(x) == (IF IsSome(x.user) THEN x.user[1] \o <<64>> ELSE <<>>) \o x.host
               \o (IF IsSome(x.port) THEN <<58>> \o x.port[1] ELSE <<>>)
IsAuthority(sp, a) ==
  LET x == SplitAuth(a) IN
  /\ IsSome(x.user) => IsUserinfo(sp, x.user[1])
  /\ IsHost(sp, x.host)
  /\ IsSome(x.port) => IsPort(x.port[1])
\* userinfo = user [ ":" password ]
SplitUser(u) == LET c == Find(u, 1, {58}) IN
  [name |-> IF c = 0 THEN u ELSE Upto(u, c - 1), pass |-> IF c = 0 THEN None ELSE Some(From(u, c + 1))]

(* the five components *)
Split(s) ==
  LET h  == Find(s, 1, {35})
      s1 == IF h = 0 THEN s ELSE Upto(s, h - 1)
      m  == Find(s1, 1, {63})
      s2 == IF m = 0 THEN s1 ELSE Upto(s1, m - 1)
      c  == Find(s2, 1, {58, 47})
      hs == c > 1 /\ s2[c] = 58
      s3 == IF hs THEN From(s2, c + 1) ELSE s2
      ha == StartsSlash2(s3)
      e  == IF ha THEN Find(s3, 3, {47}) ELSE 0
  IN [scheme |-> IF hs THEN Some(Upto(s2, c - 1)) ELSE None,
      auth   |-> IF ha THEN Some(IF e = 0 THEN From(s3, 3) ELSE SubSeq(s3, 3, e - 1)) ELSE None,
      path   |-> IF ha THEN (IF e = 0 THEN <<>> ELSE From(s3, e)) ELSE s3,
      query  |-> IF m = 0 THEN None ELSE Some(From(s1, m + 1)),
      frag   |-> IF h = 0 THEN None ELSE Some(From(s, h + 1))]
Join(x) == (IF IsSome(x.scheme) THEN x.scheme[1] \o <<58>> ELSE <<>>)
           \o (IF IsSome(x.auth) THEN <<47, 47>> \o x.auth[1] ELSE <<>>)
           \o x.path
           \o (IF IsSome(x.query) THEN <<63>> \o x.query[1] ELSE <<>>)
           \o (IF IsSome(x.frag) THEN <<35>> \o x.frag[1] ELSE <<>>)
\* the path forms allowed by the presence of scheme and authority
PathFits(hasScheme, hasAuth, p) ==
  IF hasAuth THEN p = <<>> \/ StartsSlash(p)
  ELSE ~StartsSlash2(p) /\ (hasScheme \/ ~ColonFirstSeg(p))
CompsOk(sp, x) ==
  /\ IsSome(x.scheme) => IsScheme(x.scheme[1])
  /\ IsSome(x.auth) => IsAuthority(sp, x.auth[1])
  /\ IsPathChars(sp, x.path)
  /\ PathFits(IsSome(x.scheme), IsSome(x.auth), x.path)
  /\ IsSome(x.query) => IsQuery(sp, x.query[1])
  /\ IsSome(x.frag) => IsFragment(sp, x.frag[1])
IsReference(sp, s) == CompsOk(sp, Split(s))
IsIri(sp, s)      == LET x == Split(s) IN IsSome(x.scheme) /\ CompsOk(sp, x)
IsAbsolute(sp, s) == LET x == Split(s) IN IsSome(x.scheme) /\ x.frag = None /\ CompsOk(sp, x)
IsRelative(sp, s) == LET x == Split(s) IN x.scheme = None /\ CompsOk(sp, x)
\* kinds used in traces
IsKind(kind, sp, s) ==
  CASE kind = "iri" -> IsIri(sp, s) [] kind = "reference" -> IsReference(sp, s)
    [] kind = "absolute" -> IsAbsolute(sp, s) [] kind = "relative" -> IsRelative(sp, s)
    [] kind = "query" -> IsQuery(sp, s) [] kind = "fragment" -> IsFragment(sp, s)
\* a registered name in the sense of RFC 3986 3.2.2 "first-match-wins": neither IP-literal nor IPv4address
IsRegNameHost(h) == ~(h # <<>> /\ h[1] = 91) /\ ~IsIpv4(h)
=============================================================================
