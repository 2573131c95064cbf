------------------------------ MODULE DotsCheck ------------------------------
(* Dot-segment removal as the state machine of RFC 3986 5.2.4: the input    *)
(* and output buffers are the state.  Explored from every path made of up   *)
(* to MaxTok tokens; compared, at the end, with a declarative description.  *)
EXTENDS Paths, FiniteSets
CONSTANT MaxTok
VARIABLES orig, ntok, phase, in, out, last
vars == <<orig, ntok, phase, in, out, last>>
Tokens == {<<47>>, <<46>>, <<97>>, <<37, 50, 101>>, <<37, 50, 69>>}    \* / . a %2e %2E

Init == orig = <<>> /\ ntok = 0 /\ phase = "build" /\ in = <<>> /\ out = <<>> /\ last = "-"
Build == /\ phase = "build" /\ ntok < MaxTok
         /\ \E t \in Tokens : orig' = orig \o t
         /\ ntok' = ntok + 1 /\ UNCHANGED <<phase, in, out, last>>
Begin == /\ phase = "build" /\ phase' = "run" /\ in' = orig /\ UNCHANGED <<orig, ntok, out, last>>
StepRd(name) == /\ phase = "run" /\ in # <<>>
                /\ LET r == RdStep(in, out) IN
                   r.step = name /\ in' = r.in /\ out' = r.out /\ last' = name
                /\ UNCHANGED <<orig, ntok, phase>>
StepA == StepRd("A")
StepB == StepRd("B")
StepC == StepRd("C")
StepD == StepRd("D")
StepE == StepRd("E")
Finish == phase = "run" /\ in = <<>> /\ phase' = "done" /\ UNCHANGED <<orig, ntok, in, out, last>>
Next == Build \/ Begin \/ StepA \/ StepB \/ StepC \/ StepD \/ StepE \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(StepA \/ StepB \/ StepC \/ StepD \/ StepE \/ Finish)

(* declarative: split at "/", fold over a stack *)
RECURSIVE Segs(_, _)
Segs(p, i) == LET k == Find(p, i, {47}) IN
  IF k = 0 THEN <<From(p, i)>> ELSE <<SubSeq(p, i, k - 1)>> \o Segs(p, k + 1)
RECURSIVE FoldSegs(_, _, _)
\* acc: stack of kept segments; a trailing dot segment leaves an empty last segment
FoldSegs(ss, i, acc) ==
  IF i > Len(ss) THEN acc
  ELSE LET k == DotKind(ss[i])
           lastseg == i = Len(ss)
           pop == IF acc = <<>> THEN <<>> ELSE Upto(acc, Len(acc) - 1)
       IN IF k = 0 THEN FoldSegs(ss, i + 1, Append(acc, ss[i]))
          ELSE LET a == IF k = 2 THEN pop ELSE acc IN
               FoldSegs(ss, i + 1, IF lastseg THEN Append(a, <<>>) ELSE a)
RECURSIVE JoinSegs(_, _)
JoinSegs(ss, i) == IF i > Len(ss) THEN <<>> ELSE (IF i > 1 THEN <<47>> ELSE <<>>) \o ss[i] \o JoinSegs(ss, i + 1)
\* absolute paths
DeclAbs(p) == LET ss == FoldSegs(Segs(From(p, 2), 1), 1, <<>>) IN <<47>> \o JoinSegs(ss, 1)

NoDotSegs(p) == \A i \in 1..Len(Segs(p, 1)) : DotKind(Segs(p, 1)[i]) = 0
Correct ==
  phase = "done" =>
    /\ NoDotSegs(out)
    /\ out = RemoveDots(orig)
    /\ (orig # <<>> /\ orig[1] = 47) => out = DeclAbs(orig)
    /\ RemoveDots(out) = out
\* what is produced never grows beyond what was given
Bounded == phase # "build" => Len(in) + Len(out) <= Len(orig)
Shrinks == [][phase = "run" /\ phase' = "run" => Len(in') < Len(in)]_vars
Terminates == (phase = "run") ~> (phase = "done")
=============================================================================
