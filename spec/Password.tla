------------------------------ MODULE Password ------------------------------
(* The password of a reference: the userinfo after its first colon.         *)
EXTENDS Iri

\* [has, lo, hi]: whether there is a password and its index range in s (hi = lo - 1 when empty)
PwRange(s) ==
  LET x == Split(s) IN
  IF x.auth = None THEN [has |-> FALSE, lo |-> 0, hi |-> 0]
  ELSE LET au == SplitAuth(x.auth[1]) IN
    IF au.user = None THEN [has |-> FALSE, lo |-> 0, hi |-> 0]
    ELSE LET u == au.user[1]
             c == Find(u, 1, {58})
             off == (IF IsSome(x.scheme) THEN Len(x.scheme[1]) + 1 ELSE 0) + 2
         IN IF c = 0 THEN [has |-> FALSE, lo |-> 0, hi |-> 0]
            ELSE [has |-> TRUE, lo |-> off + c + 1, hi |-> off + Len(u)]
PwOf(s) == LET p == PwRange(s) IN IF p.has THEN Some(SubSeq(s, p.lo, p.hi)) ELSE None
\* the text with the password replaced by alt
PwReplaced(s, alt) == LET p == PwRange(s) IN IF p.has THEN Upto(s, p.lo - 1) \o alt \o From(s, p.hi + 1) ELSE s
PwMasked(s) == PwReplaced(s, <<>>)
\* in-place removal: the colon goes, too
PwRemoved(s) == LET p == PwRange(s) IN IF p.has THEN Upto(s, p.lo - 2) \o From(s, p.hi + 1) ELSE s
PwRemovedNonempty(s) == PwMasked(s)
=============================================================================
