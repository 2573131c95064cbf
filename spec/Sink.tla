-------------------------------- MODULE Sink ---------------------------------
(* A producer hands a text to a sink piece by piece.  Sinks:                 *)
(*   slice   a buffer of cap octets                                          *)
(*   cap     accepts cap characters, refuses from then on                    *)
(*   once    refuses the write number cap and accepts all others             *)
(*   append  a string that already holds something and can grow              *)
(*   flags   the same, asked for with a width, a precision, a fill; an IRI   *)
(*           padded or cut in the middle would be another text               *)
EXTENDS Text

\* What the whole operation may report and leave behind: a relation over the outcome, free of the
\* pieces and of how much of a refused piece a sink keeps.
SinkAllows(w, cap, text, ok, got) ==
  CASE w = "slice" -> LET bs == Utf8Str(text) IN
                      /\ ok = (Len(bs) <= cap)
                      /\ IF ok THEN got = bs ELSE StartsWith(bs, got) /\ Len(got) <= cap
    [] w = "cap" -> /\ ok = (Len(text) <= cap)
                    /\ IF ok THEN got = text ELSE StartsWith(text, got) /\ Len(got) <= cap
    [] w = "once" -> IF ok THEN got = text ELSE StartsWith(text, got)
    [] w \in {"append", "flags"} -> ok /\ got = text

\* The machine: pieces still to write, what was kept, number of writes so far, verdict.
SinkInit == [got |-> <<>>, n |-> 0, verdict |-> "running"]
Accepts(w, cap, s, piece) ==
  CASE w = "slice" -> Len(Utf8Str(s.got)) + Len(Utf8Str(piece)) <= cap
    [] w = "cap" -> Len(s.got) + Len(piece) <= cap
    [] w = "once" -> s.n + 1 # cap
    [] w \in {"append", "flags"} -> TRUE
\* a refused piece may have been kept in part (keep characters), except by a refusing "once" sink
SinkWrite(w, cap, s, piece, keep) ==
  IF Accepts(w, cap, s, piece) THEN [got |-> s.got \o piece, n |-> s.n + 1, verdict |-> "running"]
  ELSE [got |-> s.got \o Upto(piece, keep), n |-> s.n + 1, verdict |-> "failed"]
=============================================================================
