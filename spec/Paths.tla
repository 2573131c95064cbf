-------------------------------- MODULE Paths --------------------------------
(* remove_dot_segments of RFC 3986 5.2.4, one operator per lettered step.   *)
(* "." may be written %2E, as section 2.3 makes the two equivalent.         *)
EXTENDS Text
LOCAL INSTANCE SequencesExt

\* decode %2E / %2e in a segment
RECURSIVE UnDot(_, _)
UnDot(s, i) == IF i > Len(s) THEN <<>>
               ELSE IF IsTrip(s, i) /\ TripVal(s, i) = 46 THEN <<46>> \o UnDot(s, i + 3)
               ELSE <<s[i]>> \o UnDot(s, i + 1)
DotKind(seg) == IF Len(seg) > 6 THEN 0
                ELSE LET u == UnDot(seg, 1) IN IF u = <<46>> THEN 1 ELSE IF u = <<46, 46>> THEN 2 ELSE 0

\* the first path segment of the input buffer: optional "/" and the characters up to the next "/"
SegEnd(in) == LET k == Find(in, IF StartsWith(in, <<47>>) THEN 2 ELSE 1, {47}) IN
              IF k = 0 THEN Len(in) ELSE k - 1
\* remove the last segment and its preceding "/" (if any)
LastSlash(s) == SelectLastInSeq(s, LAMBDA c : c = 47)
DropLast(out) == LET k == LastSlash(out) IN IF k = 0 THEN <<>> ELSE Upto(out, k - 1)

\* one iteration of the loop: <<in, out>> -> <<in', out'>>
RdStep(in, out) ==
  LET e == SegEnd(in)
      abs == in[1] = 47
      k == DotKind(IF abs THEN SubSeq(in, 2, e) ELSE Upto(in, e))
      more == e < Len(in)      \* a "/" follows the segment
  IN CASE ~abs /\ k # 0 /\ more -> [step |-> "A", in |-> From(in, e + 2), out |-> out]
       [] abs /\ k = 1 -> [step |-> "B", in |-> <<47>> \o From(in, e + 2), out |-> out]
       [] abs /\ k = 2 -> [step |-> "C", in |-> <<47>> \o From(in, e + 2), out |-> DropLast(out)]
       [] ~abs /\ k # 0 /\ ~more -> [step |-> "D", in |-> <<>>, out |-> out]
       [] OTHER -> [step |-> "E", in |-> From(in, e + 1), out |-> out \o Upto(in, e)]
\* (each step shortens the input, so the length of p suffices)
RemoveDots(p) == FoldLeft(LAMBDA x, c : IF x.in = <<>> THEN x ELSE RdStep(x.in, x.out),
                          [step |-> "", in |-> p, out |-> <<>>], p).out

\* merge (5.2.3)
Merge(baseAuth, basePath, refPath) ==
  IF IsSome(baseAuth) /\ basePath = <<>> THEN <<47>> \o refPath
  ELSE Upto(basePath, LastSlash(basePath)) \o refPath
HasSlash2(p) == Len(p) >= 2 /\ p[1] = 47 /\ p[2] = 47
=============================================================================
