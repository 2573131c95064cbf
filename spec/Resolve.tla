------------------------------- MODULE Resolve -------------------------------
(* Reference resolution (RFC 3986 5.2.2, strict) and syntax-based           *)
(* normalization (6.2.2), with the WHATWG "/." safeguard.                   *)
EXTENDS Iri, Paths

\* percent-encoding normalization (6.2.2.1 hex case, 6.2.2.2 unreserved; RFC 3987 5.3.2.3 for IRIs)
\* low: write literal and decoded ASCII letters in lowercase
PctNormAt(sp, s, i, low) ==                             \* [o |-> output, n |-> length in s]
  IF ~IsTrip(s, i) THEN [o |-> <<IF low THEN LowerC(s[i]) ELSE s[i]>>, n |-> 1]
  ELSE LET b == TripVal(s, i) IN
    IF b < 128 THEN [o |-> IF IsUnresA(b) THEN <<IF low THEN LowerC(b) ELSE b>> ELSE Trip(b), n |-> 3]
    ELSE LET bs == TripRun(s, i, 4)
             v == Scalar(bs)
         IN IF v < 0 THEN [o |-> Trip(b), n |-> 3]
            ELSE [o |-> IF IsUnres(sp, v) THEN <<v>> ELSE Trips(Utf8(v)), n |-> 3 * LeadLen(b)]
PctNorm(sp, s) == Consume(s, LAMBDA i : PctNormAt(sp, s, i, FALSE))
PctLowerNorm(sp, s) == Consume(s, LAMBDA i : PctNormAt(sp, s, i, TRUE))
\* after decoding, does the host consist of ASCII only
HostAscii(h) == \A i \in 1..Len(h) : h[i] < 128 /\ (IsTrip(h, i) => TripVal(h, i) < 128)
NormHost(sp, h) == IF HostAscii(h) THEN PctLowerNorm(sp, h) ELSE PctNorm(sp, h)
NormAuth(sp, a) == LET x == SplitAuth(a) IN
  JoinAuth([user |-> IF IsSome(x.user) THEN Some(PctNorm(sp, x.user[1])) ELSE None,
            host |-> NormHost(sp, x.host),
            port |-> IF x.port = Some(<<>>) THEN None ELSE x.port])
OptNorm(sp, o) == IF IsSome(o) THEN Some(PctNorm(sp, o[1])) ELSE None

\* the safeguard: no authority, path beginning with "//"
Guard(x) == IF x.auth = None /\ HasSlash2(x.path) THEN [x EXCEPT !.path = <<47, 46>> \o @] ELSE x

(* --- target components of resolution; path is given unprocessed with a flag
       telling whether dot removal applies (it does not when the base path is
       taken over) --- *)
Target(b, r) ==
  IF IsSome(r.scheme) THEN [scheme |-> r.scheme, auth |-> r.auth, path |-> r.path, query |-> r.query, frag |-> r.frag, rd |-> TRUE]
  ELSE IF IsSome(r.auth) THEN [scheme |-> b.scheme, auth |-> r.auth, path |-> r.path, query |-> r.query, frag |-> r.frag, rd |-> TRUE]
  ELSE IF r.path = <<>> THEN
    [scheme |-> b.scheme, auth |-> b.auth, path |-> b.path,
     query |-> IF IsSome(r.query) THEN r.query ELSE b.query, frag |-> r.frag, rd |-> FALSE]
  ELSE IF StartsSlash(r.path) THEN
    [scheme |-> b.scheme, auth |-> b.auth, path |-> r.path, query |-> r.query, frag |-> r.frag, rd |-> TRUE]
  ELSE [scheme |-> b.scheme, auth |-> b.auth, path |-> Merge(b.auth, b.path, r.path),
        query |-> r.query, frag |-> r.frag, rd |-> TRUE]
Comps(t) == [scheme |-> t.scheme, auth |-> t.auth, path |-> t.path, query |-> t.query, frag |-> t.frag]

\* modes: "none" (plain resolution), "default", "preserve"
\* path of the result, before the safeguard
OutPath(sp, t, mode) ==
  IF mode = "none" THEN (IF t.rd THEN RemoveDots(t.path) ELSE t.path)
  ELSE IF mode = "preserve" /\ t.auth = None /\ ~StartsSlash(t.path) THEN PctNorm(sp, t.path)
  ELSE PctNorm(sp, RemoveDots(t.path))
Out(sp, t, mode) ==
  LET p == OutPath(sp, t, mode) IN
  IF mode = "none" THEN Join(Guard([Comps(t) EXCEPT !.path = p]))
  ELSE Join(Guard([scheme |-> Some(Lower(t.scheme[1])),
                   auth |-> IF IsSome(t.auth) THEN Some(NormAuth(sp, t.auth[1])) ELSE None,
                   path |-> p,
                   query |-> OptNorm(sp, t.query), frag |-> OptNorm(sp, t.frag)]))
\* an IRI on its own as a target
SelfTarget(s) == LET x == Split(s) IN
  [scheme |-> x.scheme, auth |-> x.auth, path |-> x.path, query |-> x.query, frag |-> x.frag, rd |-> TRUE]
Resolved(sp, base, ref, mode) == Out(sp, Target(Split(base), Split(ref)), mode)
Normalized(sp, s, mode) == Out(sp, SelfTarget(s), mode)

\* does the pure RFC 3986 algorithm fail to be representable
NeedsGuard(t, mode) ==
  t.auth = None /\ (mode # "none" \/ t.rd) /\ HasSlash2(RemoveDots(t.path))

IsNormalized(sp, s)    == Normalized(sp, s, "default") = s
IsNormalizedPreserve(sp, s) == Normalized(sp, s, "preserve") = s
IsNormalizedRfc(sp, s) == IsNormalized(sp, s) /\ ~NeedsGuard(SelfTarget(s), "default")
=============================================================================
