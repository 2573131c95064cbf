-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of traces recorded from the implementation.  Every event is  *)
(* one public call with its arguments and everything it returned; an event *)
(* is consumed only by the action of its name, and only if the             *)
(* specification's operators yield exactly the recorded results.           *)
(***************************************************************************)
EXTENDS Builder, Fault, Template, Store, Sink, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
(* l: the next event; stp: within an event that records a history, the next   *)
(* step (0 outside); st: the specification's state in such a history.       *)
VARIABLES l, stp, st
vars == <<l, stp, st>>
Init == l = 1 /\ stp = 0 /\ st = <<>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ stp = 0 /\ Trace[l].op = op /\ l' = l + 1 /\ UNCHANGED <<stp, st>>
\* histories: a start, and one transition per recorded step
HStart(op, s0) == l <= Len(Trace) /\ stp = 0 /\ Trace[l].op = op /\ stp' = 1 /\ st' = s0 /\ UNCHANGED l
S == E.steps[stp]
HStep(op, s1) == /\ stp > 0 /\ E.op = op /\ st' = s1
                 /\ IF stp = Len(E.steps) THEN l' = l + 1 /\ stp' = 0 ELSE stp' = stp + 1 /\ UNCHANGED l
\* a condition, evaluated as a value (and not explored as an action, whose depth would grow with the text)
Holds(c) == c = TRUE
All(xs, v) == \A i \in 1..Len(xs) : xs[i] = v

(* C03 *)
ViewOk(s, x, v) ==
  /\ v.path = x.path /\ v.auth = x.auth
  /\ v.query = x.query /\ v.query2 = x.query
  /\ v.scheme = x.scheme
  /\ v.k \notin {"absolute", "base"} => v.frag = x.frag /\ v.frag2 = x.frag
  /\ IF x.auth = None THEN v.ac = None
     ELSE LET a == SplitAuth(x.auth[1]) IN
          v.ac = Some([user |-> a.user, host |-> a.host, port |-> a.port,
                       reg |-> IF IsRegNameHost(a.host) THEN Some(a.host) ELSE None])
EvSplit == Is("split") /\ Holds(
  /\ LET x == Split(E.s) IN
     /\ Join(x) = E.s /\ CompsOk(E.sp, x)
     /\ \A i \in 1..Len(E.v) : ViewOk(E.s, x, E.v[i])
     /\ (IsSome(x.scheme)) = (\E i \in 1..Len(E.v) : E.v[i].k = "iri")
     /\ (x.scheme = None) = (\E i \in 1..Len(E.v) : E.v[i].k = "relative")
     /\ (IsSome(x.scheme) /\ x.frag = None) = (\E i \in 1..Len(E.v) : E.v[i].k = "absolute"))

(* C04, C05, C06, C07 *)
EvResolve == Is("resolve") /\ Holds(
  /\ LET t == Resolved(E.sp, E.b, E.r, "none") IN All(E.o, t) /\ IsIri(E.sp, t) /\ E.valid)
EvRnorm == Is("rnorm") /\ Holds(
  /\ E.valid
  /\ All(E.d, Resolved(E.sp, E.b, E.r, "default"))
  /\ All(E.p, Resolved(E.sp, E.b, E.r, "preserve")))
EvNorm == Is("norm") /\ Holds(
  /\ E.valid
  /\ All(E.d, Normalized(E.sp, E.s, "default"))
  /\ All(E.p, Normalized(E.sp, E.s, "preserve")))
Preds(sp, s) == <<IsNormalized(sp, s), IsNormalizedRfc(sp, s), IsNormalizedPreserve(sp, s)>>
EvIsNorm == Is("isnorm") /\ Holds(
  /\ LET n == Normalized(E.sp, E.s, "default")
         m == Normalized(E.sp, E.s, "preserve")
         rfc == ~NeedsGuard(SelfTarget(E.s), "default")
     IN /\ All(E.p, <<n = E.s, n = E.s /\ rfc, m = E.s>>)
        /\ E.n = n /\ E.m = m
        /\ E.nn = <<n>> /\ E.mm = <<m>>
        /\ E.np[1] /\ E.mp[3])
EvEnsure == Is("ensure") /\ Holds(
  /\ All(E.v, ~NeedsGuard(SelfTarget(E.s), "default")))
EvREnsure == Is("rensure") /\ Holds(
  /\ LET t == Target(Split(E.b), Split(E.r)) IN
     /\ E.n = ~NeedsGuard(t, "none")
     /\ All(E.v, ~NeedsGuard(t, "default")))

(* C09 *)
XX == <<42, 88, 42>>
Angled(s) == <<60>> \o s \o <<62>>
EvMask == Is("mask") /\ Holds(
  /\ E.valid
  /\ All(E.m, PwMasked(E.s)) /\ All(E.dbg, Angled(PwMasked(E.s)))
  /\ All(E.rep, PwReplaced(E.s, XX)) /\ All(E.rdbg, Angled(PwReplaced(E.s, XX)))
  /\ All(E.pw, PwOf(E.s))
  /\ All(E.rm, PwRemoved(E.s)) /\ All(E.rmn, PwRemovedNonempty(E.s)))

Contains(s, p) == \E i \in 0..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p
EvDbgPw == Is("dbgpw") /\ Holds(
  /\ \A i \in 1..Len(E.d) : ~Contains(E.d[i], E.pw))

(* C08 *)
EvToUri == Is("touri") /\ Holds(
  /\ LET u == ToUri(E.s) IN
     /\ All(E.o, u) /\ IsKind(E.k, "uri", u) /\ E.valid
     /\ All(E.as, IF IsAscii(E.s) THEN Some(E.s) ELSE None)
     /\ All(E.tryinto, [ok |-> IsAscii(E.s), s |-> E.s]))

(* C11: every conversion succeeds exactly when the text is of the target kind, and carries the text *)
ConvKind(k, sp, s) ==
  CASE k = "never" -> FALSE
    [] k = "pquery" -> StartsWith(s, <<63>>) /\ IsQuery(sp, Tail(s))
    [] k = "pfragment" -> StartsWith(s, <<35>>) /\ IsFragment(sp, Tail(s))
    [] OTHER -> IsKind(k, sp, s)
EvConv == Is("conv") /\ Holds(
  /\ LET \* the kinds of the text, computed once
         K == {"iri", "reference", "absolute", "relative", "query", "fragment", "pquery", "pfragment", "never"}
         is == [p \in K \X {"uri", "iri"} |-> ConvKind(p[1], p[2], E.s)]
         h == Find(E.s, 1, {35})
         abs == IF h = 0 THEN E.s ELSE Upto(E.s, h - 1)
         frag == IF h = 0 THEN None ELSE Some(From(E.s, h + 1))
     IN /\ \A i \in 1..Len(E.r) : LET c == E.r[i] IN c.ok = is[<<c.k, c.sp>>] /\ E.texts[c.t] = E.s
        /\ \A i \in 1..Len(E.af) : E.af[i].a = abs /\ E.af[i].f = frag
        /\ Len(E.af) = IF is[<<"iri", E.sp>>] THEN 4 ELSE 0)

(* C12 *)
BuildStart == HStart("build", IF IsSome(E.s) THEN OfText(E.s[1]) ELSE New)
BuildStep ==
  /\ stp > 0 /\ E.op = "build"
  /\ LET n == IF S.op = "none" THEN st ELSE Call(st, S.op, S.x, S.y)
         t == [sp \in {"uri", "iri"} |-> IF BuildsRef(sp, n) THEN Some(BuiltText(sp, n)) ELSE None]
         ens == BuiltNeedsGuard(n)
     IN /\ S.op \in Ops \cup {"none"}
        /\ Holds(\A i \in 1..Len(S.r) :
             LET a == S.r[i] IN
             /\ a.ok = (IsSome(t[a.sp]) /\ KindOk(a.k, n))
             /\ a.ok => All(a.o, t[a.sp][1]) /\ a.ens = ens /\ a.valid /\ IsKind(a.k, a.sp, t[a.sp][1]))
        /\ HStep("build", n)

(* C13 *)
EvPctEnc == Is("pctenc") /\ Holds(
  /\ E.ctx \in Contexts
  /\ LET o == Encode(E.sp, E.ctx, E.s) IN
     /\ All(E.o, o) /\ FitsContext(E.sp, E.ctx, o) /\ DecodeText(Utf8Str(o)) = Some(E.s))

(* C14 *)
DecStart == /\ HStart("decode", E.s)
            /\ Holds(LET d == Decode(E.s) IN
               /\ All(E.all, d)
               /\ E.borrowed = ~NeedsDecoding(E.s)
               /\ E.tb = IF NeedsDecoding(E.s) THEN None ELSE Some(E.s)
               /\ E.str = DecodeText(E.s)
               /\ E.nyd = E.s)
DecStep == /\ stp > 0 /\ E.op = "decode"
           /\ LET f == NextFrag(st) IN
              /\ S = [k |-> f.k, b |-> f.b, rest |-> f.rest]
              /\ (f.k = "end") = (stp = Len(E.steps))
              /\ HStep("decode", f.rest)

(* C15 *)
EvVars == Is("vars") /\ Holds(
  /\ IsTemplate(E.t) /\ All(E.v, Variables(E.t))
  /\ All(E.forms, E.t) /\ All(E.lens, TRUE)
  /\ IsTemplate(E.u) /\ E.fine /\ E.ap = E.t \o E.u
  /\ E.av = Variables(E.t) \o Variables(E.u))

(* C16 *)
EnvF(e) == [n \in {e[i].n : i \in 1..Len(e)} |-> (CHOOSE x \in {e[i] : i \in 1..Len(e)} : x.n = n).v]
EvExpand == Is("expand") /\ Holds(
  /\ LET env == EnvF(E.env) IN
     /\ E.vars = Variables(E.t)
     /\ All(E.ok, Expandable(E.t, env))
     /\ E.ok[1] => /\ \E lax \in BOOLEAN : All(E.o, Expand(E.sp, E.t, env, lax))
                   /\ \A i \in 1..Len(E.conv) :
                        /\ E.conv[i].same
                        /\ E.conv[i].ok = IsKind(E.conv[i].k, E.sp, E.o[1]))
\* a SimpleContext is a store of variables
StoreStart == HStart("store", EmptyStore)
StoreStep == /\ stp > 0 /\ E.op = "store"
             /\ LET n == StoreCall(st, S.op, S.n, S.v) IN
                /\ S.r = n.ret
                /\ HStep("store", n.st)

(* C17: both readings of the one open question in lockstep *)
DynStart == HStart("dyn", [a |-> Machine(E.cap), b |-> Machine(E.cap)])
DynStep ==
  /\ stp > 0 /\ E.op = "dyn"
  /\ LET items == Items(E.t)
         a == Step(E.sp, items, st.a, S.op, S.v, TRUE)
         b == Step(E.sp, items, st.b, S.op, S.v, FALSE)
     IN /\ CanStep(items, st.a, S.op, S.name)
        /\ (stp = Len(E.steps)) = (a.ph = "done")
        /\ Holds(a.ph = "done" =>
             /\ E.ok = (a.err = "")
             /\ IF E.ok THEN E.out \in {a.out, b.out} ELSE StartsWith(a.out, E.out)
             /\ IsSome(E.cap) => Len(E.out) <= E.cap[1])
        /\ HStep("dyn", [a |-> a, b |-> b])

(* C18: values compare as their texts do: the order of UTF-8 is that of the code points *)
AnyKind(k, sp, s) == IF k = "template" THEN IsTemplate(s) ELSE IsKind(k, sp, s)
EvCmp == Is("cmp") /\ Holds(
  /\ LET o == Order(E.a, E.b) IN All(E.eq, o = 0) /\ All(E.ord, o)
  /\ All(E.h, TRUE))
EvParse == Is("parse") /\ Holds(
  /\ LET k == AnyKind(E.k, E.sp, E.s) IN All(E.ok, k) /\ All(E.o, E.s) /\ (k = (E.o # <<>>))
  /\ All(E.bad, TRUE))

(* C19: what a lazy value writes, by its definition, and what every sink gets of it *)
LazyText(e) ==
  CASE e.w = "norm" -> Normalized(e.sp, e.s, "default")
    [] e.w = "normp" -> Normalized(e.sp, e.s, "preserve")
    [] e.w = "resolve" -> Resolved(e.sp, e.s, e.x, "none")
    [] e.w = "rnorm" -> Resolved(e.sp, e.s, e.x, "default")
    [] e.w = "mask" -> PwMasked(e.s)
    [] e.w = "replace" -> PwReplaced(e.s, e.x)
    [] e.w = "touri" -> ToUri(e.s)
    [] e.w = "pctenc" -> Encode(e.sp, e.ctx, e.s)
    [] e.w = "build" -> BuiltText(e.sp, OfText(e.s))
    [] e.w = "nbuild" -> BuiltText(e.sp, [OfText(e.s) EXCEPT !.norm = TRUE])
    [] e.w = "expand" -> Expand(e.sp, e.s, EnvF(e.env), TRUE)
    [] e.w = "str" -> e.s
SinkStart == HStart("sink", LazyText(E))
SinkStep == /\ stp > 0 /\ E.op = "sink"
            /\ Holds(SinkAllows(S.w, S.cap, st, S.ok, S.got) /\ S.fine)
            /\ HStep("sink", st)

(* C10 *)
MutStart == HStart("mut", E.s) /\ Holds(IsKind(E.k, E.sp, E.s))
MutStep == /\ stp > 0 /\ E.op = "mut" /\ S.a \in Edits(E.k, E.sp)
           /\ LET r == Edit(E.sp, st, S.a, S.x) IN
              /\ HStep("mut", r.s)
              /\ S.s = r.s /\ S.ret = r.ret
              /\ Holds(IsKind(E.k, E.sp, r.s) /\ ViewOk(r.s, Split(r.s), S.v))

(* C21: operations that can report a refusal of memory *)
MemStart == HStart("tlazy", LazyText(E))
MemStep == /\ stp > 0 /\ E.op = "tlazy" /\ ~S.died
           /\ Holds(MemoryAllows(S.w, S.pre, st, S.fault, S.ok, S.got))
           /\ HStep("tlazy", st)
TryStart == HStart("tmut", E.s) /\ Holds(IsKind(E.k, E.sp, E.s))
TryStep == /\ stp > 0 /\ E.op = "tmut" /\ ~S.died /\ S.a \in Edits(E.k, E.sp)
           /\ Holds(TryAllows(Edit(E.sp, st, S.a, Some(S.x)), st, S.fault, S.ok, S.s, S.ret) /\ IsKind(E.k, E.sp, S.s))
           /\ HStep("tmut", S.s)

Next == EvSplit \/ EvResolve \/ EvRnorm \/ EvNorm \/ EvIsNorm \/ EvEnsure \/ EvREnsure \/ EvMask
        \/ EvDbgPw \/ EvToUri \/ EvConv \/ BuildStart \/ BuildStep \/ EvPctEnc \/ DecStart \/ DecStep \/ MutStart \/ MutStep
        \/ EvVars \/ EvExpand \/ StoreStart \/ StoreStep \/ DynStart \/ DynStep \/ EvCmp \/ EvParse \/ SinkStart \/ SinkStep
        \/ MemStart \/ MemStep \/ TryStart \/ TryStep
Spec == Init /\ [][Next]_vars
\* (the driver compares the diameter with the exact number of transitions)
Accepted == TLCGet("stats").diameter - 1 >= Len(Trace)
=============================================================================
