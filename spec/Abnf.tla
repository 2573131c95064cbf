-------------------------------- MODULE Abnf --------------------------------
(***************************************************************************)
(* The ABNF of RFC 3986, RFC 3987 and RFC 6570, transcribed as syntax      *)
(* trees.  This module is the single normative source of "which strings    *)
(* are valid"; everything else (Automaton.tla, Iri.tla) is derived from it *)
(* or checked against it.                                                  *)
(*                                                                         *)
(* A character class is a sequence of inclusive code point ranges.         *)
(* A syntax tree is one of                                                 *)
(*   [t |-> "sym", c |-> class]       one character of the class           *)
(*   [t |-> "seq", a |-> <<...>>]     concatenation                        *)
(*   [t |-> "alt", a |-> <<...>>]     alternatives                         *)
(*   [t |-> "star", a |-> <<x>>]      *x                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Sym(c)  == [t |-> "sym", c |-> c]
Seq_(a) == [t |-> "seq", a |-> a]
Alt(a)  == [t |-> "alt", a |-> a]
Star(x) == [t |-> "star", a |-> <<x>>]
Eps     == Seq_(<<>>)
Opt(x)  == Alt(<<x, Eps>>)
Plus(x) == Seq_(<<x, Star(x)>>)
\* n*m x, expanded
RECURSIVE Rep(_, _, _)
Rep(n, m, x) == IF m = 0 THEN Eps
                ELSE IF n > 0 THEN Seq_(<<x, Rep(n - 1, m - 1, x)>>)
                ELSE Opt(Seq_(<<x, Rep(0, m - 1, x)>>))

Ch(c)   == Sym(<< <<c, c>> >>)                     \* a single character
Chs(cs) == Sym([i \in 1..Len(cs) |-> <<cs[i], cs[i]>>])
\* a string literal given as code points
Lit(cs) == Seq_([i \in 1..Len(cs) |-> Ch(cs[i])])

(* ------------------------------ terminals ------------------------------ *)
cALPHA  == << <<65, 90>>, <<97, 122>> >>
cDIGIT  == << <<48, 57>> >>
cHEXDIG == << <<48, 57>>, <<65, 70>>, <<97, 102>> >>
cOne(c) == << <<c, c>> >>
cUnresA == cALPHA \o cDIGIT \o cOne(45) \o cOne(46) \o cOne(95) \o cOne(126)   \* - . _ ~
cGen    == cOne(58) \o cOne(47) \o cOne(63) \o cOne(35) \o cOne(91) \o cOne(93) \o cOne(64)
cSub    == cOne(33) \o cOne(36) \o << <<38, 44>> >> \o cOne(59) \o cOne(61)   \* ! $ & ' ( ) * + , ; =
\* RFC 3987 2.2
cUcs == << <<160, 55295>>, <<63744, 64975>>, <<65008, 65519>>,
           <<65536, 131069>>, <<131072, 196605>>, <<196608, 262141>>, <<262144, 327677>>,
           <<327680, 393213>>, <<393216, 458749>>, <<458752, 524285>>, <<524288, 589821>>,
           <<589824, 655357>>, <<655360, 720893>>, <<720896, 786429>>, <<786432, 851965>>,
           <<851968, 917501>>, <<921600, 983037>> >>
cPriv == << <<57344, 63743>>, <<983040, 1048573>>, <<1048576, 1114109>> >>

ALPHA  == Sym(cALPHA)
DIGIT  == Sym(cDIGIT)
HEXDIG == Sym(cHEXDIG)

\* sp is "uri" or "iri"
cUnres(sp) == IF sp = "iri" THEN cUnresA \o cUcs ELSE cUnresA
Unres(sp)  == Sym(cUnres(sp))
SubDelims  == Sym(cSub)
PctEnc     == Seq_(<<Ch(37), HEXDIG, HEXDIG>>)
\* x / pct-encoded
OrPct(c)   == Alt(<<Sym(c), PctEnc>>)

(* ------------------------- RFC 3986 / RFC 3987 -------------------------- *)
PChar(sp)     == OrPct(cUnres(sp) \o cSub \o cOne(58) \o cOne(64))
Segment(sp)   == Star(PChar(sp))
SegmentNz(sp) == Plus(PChar(sp))
SegmentNzNc(sp) == Plus(OrPct(cUnres(sp) \o cSub \o cOne(64)))

PathAbempty(sp)  == Star(Seq_(<<Ch(47), Segment(sp)>>))
PathRootless(sp) == Seq_(<<SegmentNz(sp), Star(Seq_(<<Ch(47), Segment(sp)>>))>>)
PathAbsolute(sp) == Seq_(<<Ch(47), Opt(PathRootless(sp))>>)
PathNoscheme(sp) == Seq_(<<SegmentNzNc(sp), Star(Seq_(<<Ch(47), Segment(sp)>>))>>)
PathEmpty        == Eps
Path(sp) == Alt(<<PathAbempty(sp), PathAbsolute(sp), PathNoscheme(sp), PathRootless(sp), PathEmpty>>)

Query(sp)    == Star(OrPct(cUnres(sp) \o cSub \o cOne(58) \o cOne(64) \o cOne(47) \o cOne(63)
                           \o (IF sp = "iri" THEN cPriv ELSE <<>>)))
Fragment(sp) == Star(OrPct(cUnres(sp) \o cSub \o cOne(58) \o cOne(64) \o cOne(47) \o cOne(63)))

DecOctet == Alt(<< DIGIT,
                   Seq_(<<Sym(<< <<49, 57>> >>), DIGIT>>),
                   Seq_(<<Ch(49), DIGIT, DIGIT>>),
                   Seq_(<<Ch(50), Sym(<< <<48, 52>> >>), DIGIT>>),
                   Seq_(<<Ch(50), Ch(53), Sym(<< <<48, 53>> >>)>>) >>)
IPv4 == Seq_(<<DecOctet, Ch(46), DecOctet, Ch(46), DecOctet, Ch(46), DecOctet>>)
H16  == Rep(1, 4, HEXDIG)
H16C == Seq_(<<H16, Ch(58)>>)
Ls32 == Alt(<<Seq_(<<H16, Ch(58), H16>>), IPv4>>)
CC   == Lit(<<58, 58>>)
IPv6 == Alt(<<
   Seq_(<<                                              Rep(6, 6, H16C), Ls32>>),
   Seq_(<<                                          CC, Rep(5, 5, H16C), Ls32>>),
   Seq_(<<Opt(H16),                                 CC, Rep(4, 4, H16C), Ls32>>),
   Seq_(<<Opt(Seq_(<<Rep(0, 1, H16C), H16>>)),      CC, Rep(3, 3, H16C), Ls32>>),
   Seq_(<<Opt(Seq_(<<Rep(0, 2, H16C), H16>>)),      CC, Rep(2, 2, H16C), Ls32>>),
   Seq_(<<Opt(Seq_(<<Rep(0, 3, H16C), H16>>)),      CC, H16C,            Ls32>>),
   Seq_(<<Opt(Seq_(<<Rep(0, 4, H16C), H16>>)),      CC,                  Ls32>>),
   Seq_(<<Opt(Seq_(<<Rep(0, 5, H16C), H16>>)),      CC,                  H16>>),
   Seq_(<<Opt(Seq_(<<Rep(0, 6, H16C), H16>>)),      CC>>) >>)
IPvFuture == Seq_(<<Chs(<<118, 86>>), Plus(HEXDIG), Ch(46),        \* ABNF strings are case-insensitive
                    Plus(Sym(cUnresA \o cSub \o cOne(58)))>>)
IPLiteral == Seq_(<<Ch(91), Alt(<<IPv6, IPvFuture>>), Ch(93)>>)
RegName(sp)  == Star(OrPct(cUnres(sp) \o cSub))
Host(sp)     == Alt(<<IPLiteral, IPv4, RegName(sp)>>)
Port         == Star(DIGIT)
Userinfo(sp) == Star(OrPct(cUnres(sp) \o cSub \o cOne(58)))
Authority(sp) == Seq_(<<Opt(Seq_(<<Userinfo(sp), Ch(64)>>)), Host(sp), Opt(Seq_(<<Ch(58), Port>>))>>)
Scheme == Seq_(<<ALPHA, Star(Sym(cALPHA \o cDIGIT \o cOne(43) \o cOne(45) \o cOne(46)))>>)

HierPart(sp) == Alt(<<Seq_(<<Lit(<<47, 47>>), Authority(sp), PathAbempty(sp)>>),
                      PathAbsolute(sp), PathRootless(sp), PathEmpty>>)
RelPart(sp)  == Alt(<<Seq_(<<Lit(<<47, 47>>), Authority(sp), PathAbempty(sp)>>),
                      PathAbsolute(sp), PathNoscheme(sp), PathEmpty>>)
OptQuery(sp) == Opt(Seq_(<<Ch(63), Query(sp)>>))
OptFrag(sp)  == Opt(Seq_(<<Ch(35), Fragment(sp)>>))
AbsoluteIri(sp) == Seq_(<<Scheme, Ch(58), HierPart(sp), OptQuery(sp)>>)
Iri(sp)         == Seq_(<<Scheme, Ch(58), HierPart(sp), OptQuery(sp), OptFrag(sp)>>)
RelativeRef(sp) == Seq_(<<RelPart(sp), OptQuery(sp), OptFrag(sp)>>)
IriReference(sp) == Alt(<<Iri(sp), RelativeRef(sp)>>)

(* ------------------------------- RFC 6570 ------------------------------- *)
\* literals = %x21 / %x23-24 / %x26 / %x28-3B / %x3D / %x3F-5B / %x5D / %x5F / %x61-7A / %x7E
\*            / ucschar / iprivate / pct-encoded, plus %x27 by erratum 6937
cTLit == << <<33, 33>>, <<35, 36>>, <<38, 59>>, <<61, 61>>, <<63, 91>>, <<93, 93>>,
            <<95, 95>>, <<97, 122>>, <<126, 126>> >> \o cUcs \o cPriv
TLiteral == OrPct(cTLit)
TVarchar == OrPct(cALPHA \o cDIGIT \o cOne(95))
TVarname == Seq_(<<TVarchar, Star(Seq_(<<Opt(Ch(46)), TVarchar>>))>>)
TMaxLen  == Seq_(<<Sym(<< <<49, 57>> >>), Rep(0, 3, DIGIT)>>)
TVarspec == Seq_(<<TVarname, Opt(Alt(<<Seq_(<<Ch(58), TMaxLen>>), Ch(42)>>))>>)
TVarlist == Seq_(<<TVarspec, Star(Seq_(<<Ch(44), TVarspec>>))>>)
\* op-level2 / op-level3; the op-reserve operators are refused by this crate
TOperator == Chs(<<43, 35, 46, 47, 59, 63, 38>>)
TExpr     == Seq_(<<Ch(123), Opt(TOperator), TVarlist, Ch(125)>>)
Template  == Star(Alt(<<TLiteral, TExpr>>))

(* --------------------- names of the rules we export --------------------- *)
SpRules  == {"iri", "reference", "absolute", "relative", "authority", "userinfo", "host", "regname",
             "path", "segment", "query", "fragment", "abempty", "pabsolute", "noscheme", "rootless"}
NoSpRules == {"scheme", "port", "ipv4", "ipv6", "ipliteral", "template", "varname"}
RuleIds  == ({"uri", "iri"} \X SpRules) \cup ({"any"} \X NoSpRules)
RulesC01 == {"uri", "iri"} \X {"iri", "reference", "absolute", "relative"}
RulesC02 == ({"uri", "iri"} \X {"authority", "userinfo", "host", "regname", "path", "segment", "query", "fragment"})
            \cup ({"any"} \X {"scheme", "port"})
RulesC15 == {"any"} \X {"template", "varname"}
RulesIp == {"any"} \X {"ipv6", "ipv4"}
RulesReg == {<<"uri", "regname">>}
RuleAst(r) ==
  LET sp == r[1]  n == r[2] IN
  CASE n = "iri" -> Iri(sp)            [] n = "reference" -> IriReference(sp)
    [] n = "absolute" -> AbsoluteIri(sp) [] n = "relative" -> RelativeRef(sp)
    [] n = "authority" -> Authority(sp) [] n = "userinfo" -> Userinfo(sp)
    [] n = "host" -> Host(sp)          [] n = "regname" -> RegName(sp)
    [] n = "path" -> Path(sp)          [] n = "segment" -> Segment(sp)
    [] n = "query" -> Query(sp)        [] n = "fragment" -> Fragment(sp)
    [] n = "abempty" -> PathAbempty(sp) [] n = "pabsolute" -> PathAbsolute(sp)
    [] n = "noscheme" -> PathNoscheme(sp) [] n = "rootless" -> PathRootless(sp)
    [] n = "scheme" -> Scheme [] n = "port" -> Port [] n = "ipv4" -> IPv4 [] n = "ipv6" -> IPv6
    [] n = "ipliteral" -> IPLiteral [] n = "template" -> Template [] n = "varname" -> TVarname

\* An IPv4 address is no registered name, although reg-name derives it (RFC 3986, section 3.2.2: the
\* first match wins): what the rule derives minus what this derives.
Nothing == Alt(<<>>)
ExceptAst(r) == IF r[2] = "regname" THEN IPv4 ELSE Nothing

(***************************************************************************)
(* Direct (denotational) membership: the set of positions at which a match *)
(* of the tree that starts after the first i characters of s can end.      *)
(***************************************************************************)
InCls(cls, c) == \E k \in 1..Len(cls) : cls[k][1] <= c /\ c <= cls[k][2]
RECURSIVE Ends(_, _, _)
RECURSIVE EndsSeq(_, _, _, _)
RECURSIVE EndsStar(_, _, _, _)
Ends(x, s, i) ==
  CASE x.t = "sym"  -> IF i < Len(s) /\ InCls(x.c, s[i + 1]) THEN {i + 1} ELSE {}
    [] x.t = "seq"  -> EndsSeq(x.a, 1, s, {i})
    [] x.t = "alt"  -> UNION {Ends(x.a[k], s, i) : k \in 1..Len(x.a)}
    [] x.t = "star" -> EndsStar(x.a[1], s, {i}, {i})
EndsSeq(a, k, s, from) == IF k > Len(a) \/ from = {} THEN from
                          ELSE EndsSeq(a, k + 1, s, UNION {Ends(a[k], s, i) : i \in from})
EndsStar(x, s, seen, new) ==
  LET more == UNION {Ends(x, s, i) : i \in new} \ seen IN
  IF more = {} THEN seen ELSE EndsStar(x, s, seen \cup more, more)
Matches(x, s) == Len(s) \in Ends(x, s, 0)
=============================================================================
