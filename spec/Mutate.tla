------------------------------- MODULE Mutate -------------------------------
(* Owned strings under in-place edits, and conversion to URIs.  The state   *)
(* of an owned string is its kind, its family and its text.                 *)
EXTENDS Iri, Password

\* IRI -> URI: every non-ASCII character as the octets of its UTF-8 form
ToUri(s) == Pieces(s, LAMBDA i : IF s[i] < 128 THEN <<s[i]>> ELSE PctChar(s[i]))

\* an edit yields the new text and what the call returns
Res(s, r) == [s |-> s, ret |-> r]
SetFragment(s, f) == Res(Join([Split(s) EXCEPT !.frag = f]), None)
\* regOnly: only replace a registered name
ReplaceHost(sp, s, h, regOnly) ==
  LET x == Split(s) IN
  IF x.auth = None THEN Res(s, None)
  ELSE LET a == SplitAuth(x.auth[1]) IN
       IF ~IsHost(sp, h) \/ (regOnly /\ ~IsRegNameHost(a.host)) THEN Res(s, None)
       ELSE Res(Join([x EXCEPT !.auth = Some(JoinAuth([a EXCEPT !.host = h]))]), Some(h))
\* the edit named a with argument x (an optional string)
Edit(sp, s, a, x) ==
  CASE a = "frag" -> SetFragment(s, x)
    [] a \in {"host", "tryhost"} -> ReplaceHost(sp, s, x[1], FALSE)
    [] a \in {"reg", "tryreg"}   -> ReplaceHost(sp, s, x[1], TRUE)
    [] a = "rmpw"  -> Res(PwRemoved(s), None)
    [] a = "rmnpw" -> Res(PwRemovedNonempty(s), None)
    [] a \in {"enc", "tryenc"} -> Res(ToUri(s), None)
Edits(kind, sp) == {"host", "tryhost", "reg", "tryreg", "rmpw", "rmnpw"}
                   \cup (IF kind = "absolute" THEN {} ELSE {"frag"})
                   \cup (IF sp = "iri" THEN {"enc", "tryenc"} ELSE {})
=============================================================================
