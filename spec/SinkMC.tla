------------------------------- MODULE SinkMC --------------------------------
(* Every cut of small texts into pieces, every sink, every capacity.         *)
EXTENDS Sink, TLC, Json
CONSTANTS MaxPieces, Emit
VARIABLES w, cap, left, done, s, ok
vars == <<w, cap, left, done, s, ok>>
PiecesOf == {<<>>, <<97>>, <<233>>, <<37, 12354>>, <<128512>>, <<98, 99, 100>>}
Texts == UNION {[1..n -> PiecesOf] : n \in 0..MaxPieces}
Init == /\ w \in {"slice", "cap", "once", "append", "flags"} /\ left \in Texts /\ done = <<>>
        /\ cap \in 0..(IF w \in {"append", "flags"} THEN 0 ELSE 9)
        /\ s = SinkInit /\ ok = TRUE
Full == Flatten(done) \o Flatten(left)
Out(x) == IF w = "slice" THEN Utf8Str(x.got) ELSE x.got
Verdict(x) == /\ ok' = SinkAllows(w, cap, Full, x.verdict = "done", Out(x))
              /\ (Emit /\ w \in {"slice", "append"} => PrintT(ToJson([w |-> w, cap |-> cap, pieces |-> done \o left, ok |-> x.verdict = "done", got |-> Out(x), text |-> Full])))
Write == /\ s.verdict = "running" /\ left # <<>>
         /\ \E keep \in 0..(IF w = "cap" THEN Len(left[1]) ELSE 0) :
              /\ w = "cap" => keep <= Max2(0, cap - Len(s.got))
              /\ LET x == SinkWrite(w, cap, s, left[1], keep) IN
                 /\ s' = x /\ left' = Tail(left) /\ done' = Append(done, left[1])
                 /\ IF x.verdict = "failed" /\ keep = 0
                    THEN LET full == Full IN
                         /\ ok' = SinkAllows(w, cap, full, FALSE, Out(x))
                         /\ (Emit /\ w \in {"slice", "append"} => PrintT(ToJson([w |-> w, cap |-> cap, pieces |-> done \o left, ok |-> FALSE, got |-> Out(x), text |-> full])))
                    ELSE ok' = (x.verdict = "failed" => SinkAllows(w, cap, Full, FALSE, Out(x)))
         /\ UNCHANGED <<w, cap>>
Finish == /\ s.verdict = "running" /\ left = <<>>
          /\ s' = [s EXCEPT !.verdict = "done"] /\ Verdict(s')
          /\ UNCHANGED <<w, cap, left, done>>
Next == Write \/ Finish
Spec == Init /\ [][Next]_vars
Ok == ok
=============================================================================
