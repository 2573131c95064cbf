-------------------------------- MODULE Fault --------------------------------
(* Memory that runs out.  An operation that can report it (try_...) may be   *)
(* refused memory at any of its allocations, once or from then on.  What it  *)
(* may then report and leave behind, free of how it allocates.               *)
EXTENDS Mutate

\* an edit in place: done, or refused without a trace
TryAllows(want, before, fault, ok, after, ret) ==
  IF ok THEN after = want.s /\ ret = want.ret ELSE fault /\ after = before /\ ret = None
\* text appended to a string that held pre: all of it, or what was there and a first part
AppendAllows(pre, text, fault, ok, got) ==
  IF ok THEN got = pre \o text ELSE fault /\ StartsWith(got, pre) /\ StartsWith(pre \o text, got)
\* a new string: the text or nothing
ResultAllows(text, fault, ok, got) == IF ok THEN got = text ELSE fault
MemoryAllows(w, pre, text, fault, ok, got) ==
  CASE w = "append" -> AppendAllows(pre, text, fault, ok, got)
    [] w \in {"string", "ded"} -> ResultAllows(text, fault, ok, got)

(* The machine of an edit: ask for the memory, then write.  While writing the *)
(* memory holds no text; it cannot be refused any more.                       *)
Torn == <<-1>>
Idle(s) == [ph |-> "idle", mem |-> s, want |-> Res(s, None), out |-> "done"]
Ask(sp, m, a, x) == [m EXCEPT !.ph = "ask", !.want = Edit(sp, m.mem, a, x), !.out = "open"]
Grows(m) == Len(Utf8Str(m.want.s)) > Len(Utf8Str(m.mem))
Grant(m) == [m EXCEPT !.ph = "write", !.mem = Torn]
Finish(m) == [m EXCEPT !.ph = "idle", !.mem = m.want.s, !.out = "done"]
Refuse(m) == [m EXCEPT !.ph = "idle", !.want = Res(m.mem, None), !.out = "refused"]
=============================================================================
