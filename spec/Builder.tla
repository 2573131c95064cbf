------------------------------- MODULE Builder -------------------------------
(* The IRI builder: its state, what each call does to it, and what building  *)
(* yields for each target kind.                                             *)
EXTENDS Resolve

(* user: "none"; "direct" with the whole userinfo; "pair" with user and optional password *)
NoUser == [k |-> "none", u |-> <<>>, p |-> None]
EmptyAuth == [user |-> NoUser, host |-> <<>>, port |-> None]
New == [scheme |-> None, auth |-> None, path |-> <<>>, query |-> None, frag |-> None, norm |-> FALSE]
OfText(s) ==
  LET x == Split(s)
      a == IF x.auth = None THEN None
           ELSE LET y == SplitAuth(x.auth[1]) IN
                Some([user |-> IF y.user = None THEN NoUser ELSE [k |-> "direct", u |-> y.user[1], p |-> None],
                      host |-> y.host, port |-> y.port])
  IN [scheme |-> x.scheme, auth |-> a, path |-> x.path, query |-> x.query, frag |-> x.frag, norm |-> FALSE]

\* the calls; x is the text argument, y a second, optional one
WithAuth(b, f(_)) == [b EXCEPT !.auth = Some(f(IF b.auth = None THEN EmptyAuth ELSE b.auth[1]))]
Ops == {"scheme", "unset_scheme", "path", "unset_authority", "userinfo", "userpass", "userinfo_none", "unset_userinfo",
        "host", "port", "port_none", "unset_port", "query", "unset_query", "fragment", "unset_fragment", "normalize", "unset_normalize"}
Call(b, op, x, y) ==
  CASE op = "scheme" -> [b EXCEPT !.scheme = Some(x)]
    [] op = "unset_scheme" -> [b EXCEPT !.scheme = None]
    [] op = "path" -> [b EXCEPT !.path = x]
    [] op = "unset_authority" -> [b EXCEPT !.auth = None]
    [] op = "userinfo" -> WithAuth(b, LAMBDA a : [a EXCEPT !.user = [k |-> "direct", u |-> x, p |-> None]])
    [] op = "userpass" -> WithAuth(b, LAMBDA a : [a EXCEPT !.user = [k |-> "pair", u |-> x, p |-> y]])
    [] op = "userinfo_none" -> WithAuth(b, LAMBDA a : [a EXCEPT !.user = NoUser])
    [] op = "unset_userinfo" -> IF b.auth = None THEN b ELSE WithAuth(b, LAMBDA a : [a EXCEPT !.user = NoUser])
    [] op = "host" -> WithAuth(b, LAMBDA a : [a EXCEPT !.host = x])
    [] op = "port" -> WithAuth(b, LAMBDA a : [a EXCEPT !.port = Some(x)])
    [] op = "port_none" -> WithAuth(b, LAMBDA a : [a EXCEPT !.port = None])
    [] op = "unset_port" -> IF b.auth = None THEN b ELSE WithAuth(b, LAMBDA a : [a EXCEPT !.port = None])
    [] op = "query" -> [b EXCEPT !.query = Some(x)]
    [] op = "unset_query" -> [b EXCEPT !.query = None]
    [] op = "fragment" -> [b EXCEPT !.frag = Some(x)]
    [] op = "unset_fragment" -> [b EXCEPT !.frag = None]
    [] op = "normalize" -> [b EXCEPT !.norm = TRUE]
    [] op = "unset_normalize" -> [b EXCEPT !.norm = FALSE]

UserText(u) == IF u.k = "none" THEN None
               ELSE IF u.k = "direct" THEN Some(u.u)
               ELSE Some(u.u \o (IF IsSome(u.p) THEN <<58>> \o u.p[1] ELSE <<>>))
AuthText(a) == JoinAuth([user |-> UserText(a.user), host |-> a.host, port |-> a.port])
BComps(b) == [scheme |-> b.scheme, auth |-> IF b.auth = None THEN None ELSE Some(AuthText(b.auth[1])),
              path |-> b.path, query |-> b.query, frag |-> b.frag]
\* each configured component on its own
PartsOk(sp, b) ==
  /\ IsSome(b.scheme) => IsScheme(b.scheme[1])
  /\ IsSome(b.auth) => LET a == b.auth[1] IN
       /\ a.user.k = "direct" => IsUserinfo(sp, a.user.u)
       /\ a.user.k = "pair" => /\ IsUserinfo(sp, a.user.u) /\ ~Has(a.user.u, 58)
                               /\ IsSome(a.user.p) => IsUserinfo(sp, a.user.p[1])
       /\ IsHost(sp, a.host)
       /\ IsSome(a.port) => IsPort(a.port[1])
  /\ IsPathChars(sp, b.path)
  /\ IsSome(b.query) => IsQuery(sp, b.query[1])
  /\ IsSome(b.frag) => IsFragment(sp, b.frag[1])
\* the normal form of the components; a relative path of a relative reference keeps its segments
NormComps(sp, x) ==
  Guard([scheme |-> IF IsSome(x.scheme) THEN Some(Lower(x.scheme[1])) ELSE None,
         auth |-> IF IsSome(x.auth) THEN Some(NormAuth(sp, x.auth[1])) ELSE None,
         path |-> IF x.scheme = None /\ x.auth = None /\ ~StartsSlash(x.path) THEN PctNorm(sp, x.path)
                  ELSE PctNorm(sp, RemoveDots(x.path)),
         query |-> OptNorm(sp, x.query), frag |-> OptNorm(sp, x.frag)])
OutComps(sp, b) == LET x == BComps(b) IN IF b.norm THEN NormComps(sp, x) ELSE x
\* with an authority the configured path already has to be empty or absolute
Representable(b, out) ==
  /\ IsSome(b.auth) => (b.path = <<>> \/ StartsSlash(b.path))
  /\ PathFits(IsSome(out.scheme), IsSome(out.auth), out.path)
BuildsRef(sp, b) == PartsOk(sp, b) /\ Representable(b, OutComps(sp, b))
KindOk(kind, b) == CASE kind = "reference" -> TRUE
                     [] kind = "iri" -> IsSome(b.scheme)
                     [] kind = "absolute" -> IsSome(b.scheme) /\ b.frag = None
                     [] kind = "relative" -> b.scheme = None
Builds(sp, kind, b) == KindOk(kind, b) /\ BuildsRef(sp, b)
BuiltText(sp, b) == Join(OutComps(sp, b))
BuiltNeedsGuard(b) == b.auth = None /\ HasSlash2(RemoveDots(b.path))
=============================================================================
