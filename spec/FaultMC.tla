------------------------------ MODULE FaultMC -------------------------------
(* All short histories of fallible edits of an owned string, any of which    *)
(* may be refused the memory it needs.  Each finished history is printed and *)
(* replayed on the real types with an allocator that refuses accordingly.    *)
EXTENDS Fault, TLC, Json
CONSTANTS MaxSteps, Emit
VARIABLES kind, sp, s0, m, val, now, hist
vars == <<kind, sp, s0, m, val, now, hist>>

Texts == {Join([scheme |-> c, auth |-> a, path |-> p, query |-> None, frag |-> f]) :
             c \in {None, Some(<<97>>)}, p \in {<<47, 58, 64, 112>>, <<47, 8364>>},
             a \in {None, Some(<<104>>), Some(<<117, 58, 112, 64, 91, 58, 58, 93, 58>>), Some(<<58, 64, 49, 46, 50, 46, 51, 46, 52, 58, 56>>)},
             f \in {None, Some(<<233>>)}}
Hosts == {<<>>, <<119, 119, 119>>, <<91, 58, 58, 49, 93>>, <<97, 58>>, <<233, 46>>}
Init == /\ kind \in {"iri", "reference", "absolute", "relative"} /\ sp \in {"uri", "iri"}
        /\ s0 \in {t \in Texts : IsKind(kind, sp, t)}
        /\ m = Idle(s0) /\ val = s0 /\ now = <<>> /\ hist = <<>>
Begin(a, x) == /\ m.ph = "idle" /\ Len(hist) < MaxSteps /\ a \in Edits(kind, sp)
               /\ m' = Ask(sp, m, a, x) /\ now' = <<a, x>> /\ UNCHANGED <<kind, sp, s0, val, hist>>
Granted == m.ph = "ask" /\ m' = Grant(m) /\ UNCHANGED <<kind, sp, s0, val, now, hist>>
Record(refuse, n) ==
  LET h == Append(hist, [a |-> now[1], x |-> now[2], refuse |-> refuse, s |-> n.mem, ret |-> n.want.ret]) IN
  /\ hist' = h
  /\ (Emit /\ Len(h) = MaxSteps /\ (\E i \in 1..MaxSteps : h[i].refuse) => PrintT(ToJson([k |-> kind, sp |-> sp, s |-> s0, steps |-> h])))
\* val: what the edits that were not refused amount to
Finished == /\ m.ph = "write" /\ m' = Finish(m) /\ val' = Edit(sp, val, now[1], now[2]).s
            /\ LET n == Finish(m) IN Record(FALSE, n)
            /\ UNCHANGED <<kind, sp, s0, now>>
Refused == /\ m.ph = "ask" /\ Grows(m) /\ m' = Refuse(m)
           /\ LET n == Refuse(m) IN Record(TRUE, n)
           /\ UNCHANGED <<kind, sp, s0, val, now>>
Next == \/ \E h \in Hosts, a \in {"tryhost", "tryreg"} : Begin(a, Some(h))
        \/ Begin("tryenc", None) \/ Granted \/ Finished \/ Refused
Spec == Init /\ [][Next]_vars

NeverTorn == m.ph # "write" => m.mem = val
AlwaysValid == IsKind(kind, sp, val)
RefusedUnchanged == m.out = "refused" => TryAllows(m.want, val, TRUE, FALSE, m.mem, None)
DoneAllowed == m.ph = "idle" /\ m.out = "done" /\ hist # <<>> => TryAllows(m.want, val, FALSE, TRUE, m.mem, m.want.ret)
=============================================================================
