----------------------------- MODULE OrderCheck -----------------------------
(* The order of texts by code points is the order of their UTF-8 octets, and *)
(* UTF-8 can be read back: what C18 says about comparison holds for either.  *)
EXTENDS Text
CONSTANTS MaxLen, Alphabet
VARIABLES a, b
Init == a = <<>> /\ b = <<>>
Next == \/ Len(a) < MaxLen /\ \E c \in Alphabet : a' = Append(a, c) /\ UNCHANGED b
        \/ Len(b) < MaxLen /\ \E c \in Alphabet : b' = Append(b, c) /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b>>
SameOrder == Order(a, b) = Order(Utf8Str(a), Utf8Str(b))
Total == /\ Order(a, b) = 0 - Order(b, a)
         /\ (Order(a, b) = 0) = (a = b)
         /\ StartsWith(b, a) => Order(a, b) <= 0
Readable == Utf8Valid(Utf8Str(a)) /\ Utf8Decode(Utf8Str(a)) = a
=============================================================================
