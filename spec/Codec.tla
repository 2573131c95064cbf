-------------------------------- MODULE Codec --------------------------------
(* Percent-encoding for a context, and percent-decoding (WHATWG URL 1.3).    *)
EXTENDS Iri

Contexts == {"regname", "user", "password", "segment", "path", "query", "fragment", "unreserve", "character"}
\* characters the context lets through; '%' is in none of them
Allowed(sp, ctx, c) ==
  CASE ctx = "regname" -> IsRegC(sp, c)
    [] ctx \in {"user", "password"} -> IsRegC(sp, c)
    [] ctx = "segment" -> IsPCharC(sp, c)
    [] ctx = "path" -> IsPCharC(sp, c) \/ c = 47
    [] ctx = "query" -> IsQueryC(sp, c)
    [] ctx = "fragment" -> IsFragC(sp, c)
    [] ctx = "unreserve" -> IsUnres(sp, c)
    [] ctx = "character" -> IsUnres(sp, c) \/ IsGenDelim(c) \/ IsSubDelim(c) \/ (sp = "iri" /\ IsPriv(c))
EncodeChar(sp, ctx, c) == IF Allowed(sp, ctx, c) THEN <<c>> ELSE PctChar(c)
Encode(sp, ctx, s) == Pieces(s, LAMBDA i : EncodeChar(sp, ctx, s[i]))
\* what an encoded string is valid as
FitsContext(sp, ctx, s) ==
  CASE ctx = "regname" -> IsRegName(sp, s)
    [] ctx \in {"user", "password"} -> IsUserinfo(sp, s) /\ ~Has(s, 58)
    [] ctx = "segment" -> IsSegment(sp, s)
    [] ctx = "path" -> IsPathChars(sp, s)
    [] ctx = "query" -> IsQuery(sp, s)
    [] ctx = "fragment" -> IsFragment(sp, s)
    [] ctx = "unreserve" -> AllOk(s, LAMBDA c : IsUnres(sp, c))
    [] ctx = "character" -> TRUE

(* Decoding works on octets.  One fragment at a time: what comes next in a    *)
(* not yet decoded text, and the text that remains after it.                *)
Frag(k, b, rest) == [k |-> k, b |-> b, rest |-> rest]
NextFrag(s) ==
  IF s = <<>> THEN Frag("end", <<>>, <<>>)
  ELSE IF IsTrip(s, 1) THEN Frag("byte", <<TripVal(s, 1)>>, From(s, 4))
  ELSE IF s[1] = 37 THEN Frag("stray", <<37>>, From(s, 2))
  ELSE LET k == Find(s, 1, {37}) IN
       IF k = 0 THEN Frag("direct", s, <<>>) ELSE Frag("direct", Upto(s, k - 1), From(s, k))
Decode(s) == Consume(s, LAMBDA i : IF IsTrip(s, i) THEN [o |-> <<TripVal(s, i)>>, n |-> 3] ELSE [o |-> <<s[i]>>, n |-> 1])
NeedsDecoding(s) == \E i \in 1..Len(s) : IsTrip(s, i)
DecodeText(s) == LET d == Decode(s) IN IF Utf8Valid(d) THEN Some(Utf8Decode(d)) ELSE None
=============================================================================
