------------------------------- MODULE CodecMC -------------------------------
(* Encoding as a machine fed with pieces, decoding as a machine that emits   *)
(* fragments.  Every transition is printed for replay on the real code.      *)
EXTENDS Codec, TLC, Json
CONSTANTS Mode, MaxRaw, MaxBytes, Emit
VARIABLES mode, sp, ctx, src, out, n, ok
vars == <<mode, sp, ctx, src, out, n, ok>>

\* one representative of every class the contexts tell apart, and class borders
Chars == {37, 58, 47, 63, 35, 91, 64, 33, 39, 65, 126, 48, 32, 34, 92, 94, 127, 128, 159, 160, 233, 8364,
          57344, 63743, 63744, 64975, 64976, 65008, 65520, 65536, 131070, 917504, 921600, 983037, 983040, 1114109, 1114110}
Octets == {37, 50, 70, 97, 71, 65, 227, 0}
EInit == /\ mode = "enc" /\ sp \in {"uri", "iri"} /\ ctx \in Contexts /\ src = <<>> /\ out = <<>>
DInit == /\ mode = "dec" /\ sp = "uri" /\ ctx = "regname" /\ out = <<>>
         /\ src \in UNION {[1..k -> Octets] : k \in 0..MaxBytes}
Init == n = 0 /\ ok = TRUE /\ mode = Mode /\ (EInit \/ DInit)
P(x) == Emit => PrintT(ToJson(x))
\* a piece of the source arrives
Piece == /\ mode = "enc" /\ n < MaxRaw
         /\ \E c \in Chars :
              LET o == out \o EncodeChar(sp, ctx, c)  s == Append(src, c) IN
              /\ src' = s /\ out' = o
              /\ ok' = /\ o = Encode(sp, ctx, s) /\ FitsContext(sp, ctx, o)
                       /\ DecodeText(Utf8Str(o)) = Some(s)
                       /\ PctOk(o)
              /\ P([m |-> "enc", sp |-> sp, ctx |-> ctx, s |-> s, o |-> o])
         /\ n' = n + 1 /\ UNCHANGED <<mode, sp, ctx>>
\* the next fragment is taken
Take == /\ mode = "dec"
        /\ src # <<>>
        /\ LET f == NextFrag(src) IN
           /\ src' = f.rest /\ out' = out \o f.b
           /\ ok' = /\ f.b \o Decode(f.rest) = Decode(src)
                    /\ (f.k = "direct" => f.b # <<>> /\ ~Has(f.b, 37) /\ f.b \o f.rest = src)
                    /\ (f.k = "stray" => ~IsTrip(src, 1))
                    /\ (NeedsDecoding(src) = (f.k = "byte" \/ NeedsDecoding(f.rest)))
           /\ P([m |-> "dec", s |-> src, k |-> f.k, b |-> f.b, rest |-> f.rest, all |-> Decode(src), need |-> NeedsDecoding(src)])
        /\ n' = n /\ UNCHANGED <<mode, sp, ctx>>
Next == Piece \/ Take
Spec == Init /\ [][Next]_vars
Ok == ok
\* states differ in what is still to come; what was already emitted only matters through ok
View == IF mode = "dec" THEN <<mode, src, ok>> ELSE vars
=============================================================================
