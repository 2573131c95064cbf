------------------------------ MODULE MutateMC ------------------------------
(* All histories of edits from a set of initial strings: the text is always *)
(* valid and only the edited component changes.  Every transition is also   *)
(* printed, and replayed on the real types by the harness.                  *)
EXTENDS Mutate, TLC, Json
CONSTANTS MaxSteps, Emit, Small
VARIABLES kind, sp, s, n, act, ok
vars == <<kind, sp, s, n, act, ok>>

Auths == {None, Some(<<>>), Some(<<104>>), Some(<<117, 64, 104>>), Some(<<117, 58, 112, 64, 91, 58, 58, 93, 58>>),
          Some(<<58, 64, 49, 46, 50, 46, 51, 46, 52, 58, 56>>), Some(<<58, 112, 58, 113, 64, 97, 58, 49>>),
          Some(<<64, 91, 118, 49, 46, 58, 93>>)}
AuthsSmall == {None, Some(<<104>>), Some(<<117, 58, 112, 64, 91, 58, 58, 93, 58>>), Some(<<58, 64, 49, 46, 50, 46, 51, 46, 52, 58, 56>>)}
Schemes == {None, Some(<<97>>)}
PathsI == {<<>>, <<47, 58, 64, 112>>}
Qs == {None, Some(<<117, 58, 112, 64, 104>>)}
Fs == {None, Some(<<>>), Some(<<47, 63, 58, 64>>)}
Texts == {Join([scheme |-> c, auth |-> a, path |-> p, query |-> q, frag |-> f]) :
             c \in Schemes, a \in (IF Small THEN AuthsSmall ELSE Auths), p \in (IF Small THEN {<<47, 58, 64, 112>>} ELSE PathsI), q \in Qs, f \in Fs}
IriTexts == {<<97, 58, 47, 47, 233, 58, 12354, 64, 104, 233, 47, 8364, 63, 57344, 35, 128512>>,
             <<47, 47, 104, 58, 233>>, <<233, 47, 128512>>, <<35, 233, 37, 69, 57>>}
HostsSmall == {<<>>, <<119>>, <<91, 58, 58, 49, 93>>, <<97, 58>>, <<233>>}
HostsFull == {<<>>, <<119, 120>>, <<91, 58, 58, 49, 93>>, <<49, 46, 49, 46, 49, 46, 49>>, <<37, 50, 70>>, <<91>>,
          <<97, 64, 98>>, <<97, 58>>, <<37>>, <<233>>, <<47>>}
Hosts == IF Small THEN HostsSmall ELSE HostsFull
Frags == {None, Some(<<>>), Some(<<120, 47, 63>>)}

Init == /\ sp \in {"uri", "iri"} /\ n = 0 /\ act = "init" /\ ok = TRUE
        /\ kind \in {"iri", "reference", "absolute", "relative"}
        /\ s \in {t \in Texts \cup IriTexts : IsKind(kind, sp, t)}
\* an edit of one component leaves all others as they are
OnlyFrag(t, u) == LET x == Split(t)  y == Split(u) IN [y EXCEPT !.frag = None] = [x EXCEPT !.frag = None]
OnlyHost(t, u) ==
  LET x == Split(t)  y == Split(u) IN
  /\ [y EXCEPT !.auth = None] = [x EXCEPT !.auth = None]
  /\ IsSome(x.auth) = IsSome(y.auth)
  /\ IsSome(x.auth) => [SplitAuth(x.auth[1]) EXCEPT !.host = <<>>] = [SplitAuth(y.auth[1]) EXCEPT !.host = <<>>]
OnlyPassword(t, u) ==
  LET x == Split(t)  y == Split(u) IN
  /\ [y EXCEPT !.auth = None] = [x EXCEPT !.auth = None]
  /\ IsSome(x.auth) = IsSome(y.auth)
  /\ IsSome(x.auth) => [SplitAuth(x.auth[1]) EXCEPT !.user = None] = [SplitAuth(y.auth[1]) EXCEPT !.user = None]
Only(a, t, u) == CASE a = "frag" -> OnlyFrag(t, u)
                   [] a \in {"host", "tryhost", "reg", "tryreg"} -> OnlyHost(t, u)
                   [] a \in {"rmpw", "rmnpw"} -> OnlyPassword(t, u)
                   [] OTHER -> TRUE
Do(a, x) == /\ n < MaxSteps /\ a \in Edits(kind, sp)
            /\ LET r == Edit(sp, s, a, x) IN
               /\ s' = r.s /\ ok' = Only(a, s, r.s)
               /\ (Emit => PrintT(ToJson([k |-> kind, sp |-> sp, s |-> s, a |-> a, x |-> x, t |-> r.s, ret |-> r.ret])))
            /\ n' = n + 1 /\ act' = a /\ UNCHANGED <<kind, sp>>
DoFrag == \E f \in Frags : Do("frag", f)
DoHost == \E h \in Hosts, a \in (IF Small THEN {"host"} ELSE {"host", "tryhost"}) : Do(a, Some(h))
DoReg  == \E h \in Hosts, a \in (IF Small THEN {"reg"} ELSE {"reg", "tryreg"}) : Do(a, Some(h))
DoRmPw == \E a \in {"rmpw", "rmnpw"} : Do(a, None)
DoEnc  == \E a \in {"enc", "tryenc"} : Do(a, None)
Next == DoFrag \/ DoHost \/ DoReg \/ DoRmPw \/ DoEnc
Spec == Init /\ [][Next]_vars

Valid == IsKind(kind, sp, s)
NoPassword == act = "rmpw" => ~PwRange(s).has
Masked == act = "rmnpw" => (PwRange(s).has => PwOf(s) = Some(<<>>))
UriAfterEnc == act \in {"enc", "tryenc"} => IsKind(kind, "uri", s)
OnlyThat == ok
View == <<kind, sp, s, act, ok>>
=============================================================================
