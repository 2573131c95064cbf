--------------------------- MODULE Rfc6570Examples ---------------------------
(* The examples of RFC 6570 section 3.2, as code points. *)
EXTENDS Template
Vars6570 == <<
  <<<<99, 111, 117, 110, 116>>, List(<<<<111, 110, 101>>, <<116, 119, 111>>, <<116, 104, 114, 101, 101>>>>)>>,
  <<<<100, 111, 109>>, List(<<<<101, 120, 97, 109, 112, 108, 101>>, <<99, 111, 109>>>>)>>,
  <<<<100, 117, 98>>, Str(<<109, 101, 47, 116, 111, 111>>)>>,
  <<<<104, 101, 108, 108, 111>>, Str(<<72, 101, 108, 108, 111, 32, 87, 111, 114, 108, 100, 33>>)>>,
  <<<<104, 97, 108, 102>>, Str(<<53, 48, 37>>)>>,
  <<<<118, 97, 114>>, Str(<<118, 97, 108, 117, 101>>)>>,
  <<<<119, 104, 111>>, Str(<<102, 114, 101, 100>>)>>,
  <<<<98, 97, 115, 101>>, Str(<<104, 116, 116, 112, 58, 47, 47, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109, 47, 104, 111, 109, 101, 47>>)>>,
  <<<<112, 97, 116, 104>>, Str(<<47, 102, 111, 111, 47, 98, 97, 114>>)>>,
  <<<<108, 105, 115, 116>>, List(<<<<114, 101, 100>>, <<103, 114, 101, 101, 110>>, <<98, 108, 117, 101>>>>)>>,
  <<<<107, 101, 121, 115>>, Assoc(<<<<<<115, 101, 109, 105>>, <<59>>>>, <<<<100, 111, 116>>, <<46>>>>, <<<<99, 111, 109, 109, 97>>, <<44>>>>>>)>>,
  <<<<118>>, Str(<<54>>)>>,
  <<<<120>>, Str(<<49, 48, 50, 52>>)>>,
  <<<<121>>, Str(<<55, 54, 56>>)>>,
  <<<<101, 109, 112, 116, 121>>, Str(<<>>)>>,
  <<<<101, 109, 112, 116, 121, 95, 107, 101, 121, 115>>, Assoc(<<>>)>>,
  <<<<117, 110, 100, 101, 102>>, Undef>>
>>
Env6570 == [n \in {Vars6570[i][1] : i \in 1..Len(Vars6570)} |-> (CHOOSE p \in {Vars6570[i] : i \in 1..Len(Vars6570)} : p[1] = n)[2]]
Examples6570 == <<
  <<<<123, 99, 111, 117, 110, 116, 125>>, <<111, 110, 101, 44, 116, 119, 111, 44, 116, 104, 114, 101, 101>>>>,
  <<<<123, 99, 111, 117, 110, 116, 42, 125>>, <<111, 110, 101, 44, 116, 119, 111, 44, 116, 104, 114, 101, 101>>>>,
  <<<<123, 47, 99, 111, 117, 110, 116, 125>>, <<47, 111, 110, 101, 44, 116, 119, 111, 44, 116, 104, 114, 101, 101>>>>,
  <<<<123, 47, 99, 111, 117, 110, 116, 42, 125>>, <<47, 111, 110, 101, 47, 116, 119, 111, 47, 116, 104, 114, 101, 101>>>>,
  <<<<123, 59, 99, 111, 117, 110, 116, 125>>, <<59, 99, 111, 117, 110, 116, 61, 111, 110, 101, 44, 116, 119, 111, 44, 116, 104, 114, 101, 101>>>>,
  <<<<123, 59, 99, 111, 117, 110, 116, 42, 125>>, <<59, 99, 111, 117, 110, 116, 61, 111, 110, 101, 59, 99, 111, 117, 110, 116, 61, 116, 119, 111, 59, 99, 111, 117, 110, 116, 61, 116, 104, 114, 101, 101>>>>,
  <<<<123, 63, 99, 111, 117, 110, 116, 125>>, <<63, 99, 111, 117, 110, 116, 61, 111, 110, 101, 44, 116, 119, 111, 44, 116, 104, 114, 101, 101>>>>,
  <<<<123, 63, 99, 111, 117, 110, 116, 42, 125>>, <<63, 99, 111, 117, 110, 116, 61, 111, 110, 101, 38, 99, 111, 117, 110, 116, 61, 116, 119, 111, 38, 99, 111, 117, 110, 116, 61, 116, 104, 114, 101, 101>>>>,
  <<<<123, 38, 99, 111, 117, 110, 116, 42, 125>>, <<38, 99, 111, 117, 110, 116, 61, 111, 110, 101, 38, 99, 111, 117, 110, 116, 61, 116, 119, 111, 38, 99, 111, 117, 110, 116, 61, 116, 104, 114, 101, 101>>>>,
  <<<<123, 118, 97, 114, 125>>, <<118, 97, 108, 117, 101>>>>,
  <<<<123, 104, 101, 108, 108, 111, 125>>, <<72, 101, 108, 108, 111, 37, 50, 48, 87, 111, 114, 108, 100, 37, 50, 49>>>>,
  <<<<123, 104, 97, 108, 102, 125>>, <<53, 48, 37, 50, 53>>>>,
  <<<<79, 123, 101, 109, 112, 116, 121, 125, 88>>, <<79, 88>>>>,
  <<<<79, 123, 117, 110, 100, 101, 102, 125, 88>>, <<79, 88>>>>,
  <<<<123, 120, 44, 121, 125>>, <<49, 48, 50, 52, 44, 55, 54, 56>>>>,
  <<<<123, 120, 44, 104, 101, 108, 108, 111, 44, 121, 125>>, <<49, 48, 50, 52, 44, 72, 101, 108, 108, 111, 37, 50, 48, 87, 111, 114, 108, 100, 37, 50, 49, 44, 55, 54, 56>>>>,
  <<<<63, 123, 120, 44, 101, 109, 112, 116, 121, 125>>, <<63, 49, 48, 50, 52, 44>>>>,
  <<<<63, 123, 120, 44, 117, 110, 100, 101, 102, 125>>, <<63, 49, 48, 50, 52>>>>,
  <<<<63, 123, 117, 110, 100, 101, 102, 44, 121, 125>>, <<63, 55, 54, 56>>>>,
  <<<<123, 118, 97, 114, 58, 51, 125>>, <<118, 97, 108>>>>,
  <<<<123, 118, 97, 114, 58, 51, 48, 125>>, <<118, 97, 108, 117, 101>>>>,
  <<<<123, 108, 105, 115, 116, 125>>, <<114, 101, 100, 44, 103, 114, 101, 101, 110, 44, 98, 108, 117, 101>>>>,
  <<<<123, 108, 105, 115, 116, 42, 125>>, <<114, 101, 100, 44, 103, 114, 101, 101, 110, 44, 98, 108, 117, 101>>>>,
  <<<<123, 107, 101, 121, 115, 125>>, <<115, 101, 109, 105, 44, 37, 51, 66, 44, 100, 111, 116, 44, 46, 44, 99, 111, 109, 109, 97, 44, 37, 50, 67>>>>,
  <<<<123, 107, 101, 121, 115, 42, 125>>, <<115, 101, 109, 105, 61, 37, 51, 66, 44, 100, 111, 116, 61, 46, 44, 99, 111, 109, 109, 97, 61, 37, 50, 67>>>>,
  <<<<123, 43, 118, 97, 114, 125>>, <<118, 97, 108, 117, 101>>>>,
  <<<<123, 43, 104, 101, 108, 108, 111, 125>>, <<72, 101, 108, 108, 111, 37, 50, 48, 87, 111, 114, 108, 100, 33>>>>,
  <<<<123, 43, 104, 97, 108, 102, 125>>, <<53, 48, 37, 50, 53>>>>,
  <<<<123, 98, 97, 115, 101, 125, 105, 110, 100, 101, 120>>, <<104, 116, 116, 112, 37, 51, 65, 37, 50, 70, 37, 50, 70, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109, 37, 50, 70, 104, 111, 109, 101, 37, 50, 70, 105, 110, 100, 101, 120>>>>,
  <<<<123, 43, 98, 97, 115, 101, 125, 105, 110, 100, 101, 120>>, <<104, 116, 116, 112, 58, 47, 47, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109, 47, 104, 111, 109, 101, 47, 105, 110, 100, 101, 120>>>>,
  <<<<79, 123, 43, 101, 109, 112, 116, 121, 125, 88>>, <<79, 88>>>>,
  <<<<79, 123, 43, 117, 110, 100, 101, 102, 125, 88>>, <<79, 88>>>>,
  <<<<123, 43, 112, 97, 116, 104, 125, 47, 104, 101, 114, 101>>, <<47, 102, 111, 111, 47, 98, 97, 114, 47, 104, 101, 114, 101>>>>,
  <<<<104, 101, 114, 101, 63, 114, 101, 102, 61, 123, 43, 112, 97, 116, 104, 125>>, <<104, 101, 114, 101, 63, 114, 101, 102, 61, 47, 102, 111, 111, 47, 98, 97, 114>>>>,
  <<<<117, 112, 123, 43, 112, 97, 116, 104, 125, 123, 118, 97, 114, 125, 47, 104, 101, 114, 101>>, <<117, 112, 47, 102, 111, 111, 47, 98, 97, 114, 118, 97, 108, 117, 101, 47, 104, 101, 114, 101>>>>,
  <<<<123, 43, 120, 44, 104, 101, 108, 108, 111, 44, 121, 125>>, <<49, 48, 50, 52, 44, 72, 101, 108, 108, 111, 37, 50, 48, 87, 111, 114, 108, 100, 33, 44, 55, 54, 56>>>>,
  <<<<123, 43, 112, 97, 116, 104, 44, 120, 125, 47, 104, 101, 114, 101>>, <<47, 102, 111, 111, 47, 98, 97, 114, 44, 49, 48, 50, 52, 47, 104, 101, 114, 101>>>>,
  <<<<123, 43, 112, 97, 116, 104, 58, 54, 125, 47, 104, 101, 114, 101>>, <<47, 102, 111, 111, 47, 98, 47, 104, 101, 114, 101>>>>,
  <<<<123, 43, 108, 105, 115, 116, 125>>, <<114, 101, 100, 44, 103, 114, 101, 101, 110, 44, 98, 108, 117, 101>>>>,
  <<<<123, 43, 108, 105, 115, 116, 42, 125>>, <<114, 101, 100, 44, 103, 114, 101, 101, 110, 44, 98, 108, 117, 101>>>>,
  <<<<123, 43, 107, 101, 121, 115, 125>>, <<115, 101, 109, 105, 44, 59, 44, 100, 111, 116, 44, 46, 44, 99, 111, 109, 109, 97, 44, 44>>>>,
  <<<<123, 43, 107, 101, 121, 115, 42, 125>>, <<115, 101, 109, 105, 61, 59, 44, 100, 111, 116, 61, 46, 44, 99, 111, 109, 109, 97, 61, 44>>>>,
  <<<<123, 35, 118, 97, 114, 125>>, <<35, 118, 97, 108, 117, 101>>>>,
  <<<<123, 35, 104, 101, 108, 108, 111, 125>>, <<35, 72, 101, 108, 108, 111, 37, 50, 48, 87, 111, 114, 108, 100, 33>>>>,
  <<<<123, 35, 104, 97, 108, 102, 125>>, <<35, 53, 48, 37, 50, 53>>>>,
  <<<<102, 111, 111, 123, 35, 101, 109, 112, 116, 121, 125>>, <<102, 111, 111, 35>>>>,
  <<<<102, 111, 111, 123, 35, 117, 110, 100, 101, 102, 125>>, <<102, 111, 111>>>>,
  <<<<123, 35, 120, 44, 104, 101, 108, 108, 111, 44, 121, 125>>, <<35, 49, 48, 50, 52, 44, 72, 101, 108, 108, 111, 37, 50, 48, 87, 111, 114, 108, 100, 33, 44, 55, 54, 56>>>>,
  <<<<123, 35, 112, 97, 116, 104, 44, 120, 125, 47, 104, 101, 114, 101>>, <<35, 47, 102, 111, 111, 47, 98, 97, 114, 44, 49, 48, 50, 52, 47, 104, 101, 114, 101>>>>,
  <<<<123, 35, 112, 97, 116, 104, 58, 54, 125, 47, 104, 101, 114, 101>>, <<35, 47, 102, 111, 111, 47, 98, 47, 104, 101, 114, 101>>>>,
  <<<<123, 35, 108, 105, 115, 116, 125>>, <<35, 114, 101, 100, 44, 103, 114, 101, 101, 110, 44, 98, 108, 117, 101>>>>,
  <<<<123, 35, 108, 105, 115, 116, 42, 125>>, <<35, 114, 101, 100, 44, 103, 114, 101, 101, 110, 44, 98, 108, 117, 101>>>>,
  <<<<123, 35, 107, 101, 121, 115, 125>>, <<35, 115, 101, 109, 105, 44, 59, 44, 100, 111, 116, 44, 46, 44, 99, 111, 109, 109, 97, 44, 44>>>>,
  <<<<123, 35, 107, 101, 121, 115, 42, 125>>, <<35, 115, 101, 109, 105, 61, 59, 44, 100, 111, 116, 61, 46, 44, 99, 111, 109, 109, 97, 61, 44>>>>,
  <<<<123, 46, 119, 104, 111, 125>>, <<46, 102, 114, 101, 100>>>>,
  <<<<123, 46, 119, 104, 111, 44, 119, 104, 111, 125>>, <<46, 102, 114, 101, 100, 46, 102, 114, 101, 100>>>>,
  <<<<123, 46, 104, 97, 108, 102, 44, 119, 104, 111, 125>>, <<46, 53, 48, 37, 50, 53, 46, 102, 114, 101, 100>>>>,
  <<<<119, 119, 119, 123, 46, 100, 111, 109, 42, 125>>, <<119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109>>>>,
  <<<<88, 123, 46, 118, 97, 114, 125>>, <<88, 46, 118, 97, 108, 117, 101>>>>,
  <<<<88, 123, 46, 101, 109, 112, 116, 121, 125>>, <<88, 46>>>>,
  <<<<88, 123, 46, 117, 110, 100, 101, 102, 125>>, <<88>>>>,
  <<<<88, 123, 46, 118, 97, 114, 58, 51, 125>>, <<88, 46, 118, 97, 108>>>>,
  <<<<88, 123, 46, 108, 105, 115, 116, 125>>, <<88, 46, 114, 101, 100, 44, 103, 114, 101, 101, 110, 44, 98, 108, 117, 101>>>>,
  <<<<88, 123, 46, 108, 105, 115, 116, 42, 125>>, <<88, 46, 114, 101, 100, 46, 103, 114, 101, 101, 110, 46, 98, 108, 117, 101>>>>,
  <<<<88, 123, 46, 107, 101, 121, 115, 125>>, <<88, 46, 115, 101, 109, 105, 44, 37, 51, 66, 44, 100, 111, 116, 44, 46, 44, 99, 111, 109, 109, 97, 44, 37, 50, 67>>>>,
  <<<<88, 123, 46, 107, 101, 121, 115, 42, 125>>, <<88, 46, 115, 101, 109, 105, 61, 37, 51, 66, 46, 100, 111, 116, 61, 46, 46, 99, 111, 109, 109, 97, 61, 37, 50, 67>>>>,
  <<<<88, 123, 46, 101, 109, 112, 116, 121, 95, 107, 101, 121, 115, 125>>, <<88>>>>,
  <<<<88, 123, 46, 101, 109, 112, 116, 121, 95, 107, 101, 121, 115, 42, 125>>, <<88>>>>,
  <<<<123, 47, 119, 104, 111, 125>>, <<47, 102, 114, 101, 100>>>>,
  <<<<123, 47, 119, 104, 111, 44, 119, 104, 111, 125>>, <<47, 102, 114, 101, 100, 47, 102, 114, 101, 100>>>>,
  <<<<123, 47, 104, 97, 108, 102, 44, 119, 104, 111, 125>>, <<47, 53, 48, 37, 50, 53, 47, 102, 114, 101, 100>>>>,
  <<<<123, 47, 119, 104, 111, 44, 100, 117, 98, 125>>, <<47, 102, 114, 101, 100, 47, 109, 101, 37, 50, 70, 116, 111, 111>>>>,
  <<<<123, 47, 118, 97, 114, 125>>, <<47, 118, 97, 108, 117, 101>>>>,
  <<<<123, 47, 118, 97, 114, 44, 101, 109, 112, 116, 121, 125>>, <<47, 118, 97, 108, 117, 101, 47>>>>,
  <<<<123, 47, 118, 97, 114, 44, 117, 110, 100, 101, 102, 125>>, <<47, 118, 97, 108, 117, 101>>>>,
  <<<<123, 47, 118, 97, 114, 44, 120, 125, 47, 104, 101, 114, 101>>, <<47, 118, 97, 108, 117, 101, 47, 49, 48, 50, 52, 47, 104, 101, 114, 101>>>>,
  <<<<123, 47, 118, 97, 114, 58, 49, 44, 118, 97, 114, 125>>, <<47, 118, 47, 118, 97, 108, 117, 101>>>>,
  <<<<123, 47, 108, 105, 115, 116, 125>>, <<47, 114, 101, 100, 44, 103, 114, 101, 101, 110, 44, 98, 108, 117, 101>>>>,
  <<<<123, 47, 108, 105, 115, 116, 42, 125>>, <<47, 114, 101, 100, 47, 103, 114, 101, 101, 110, 47, 98, 108, 117, 101>>>>,
  <<<<123, 47, 108, 105, 115, 116, 42, 44, 112, 97, 116, 104, 58, 52, 125>>, <<47, 114, 101, 100, 47, 103, 114, 101, 101, 110, 47, 98, 108, 117, 101, 47, 37, 50, 70, 102, 111, 111>>>>,
  <<<<123, 47, 107, 101, 121, 115, 125>>, <<47, 115, 101, 109, 105, 44, 37, 51, 66, 44, 100, 111, 116, 44, 46, 44, 99, 111, 109, 109, 97, 44, 37, 50, 67>>>>,
  <<<<123, 47, 107, 101, 121, 115, 42, 125>>, <<47, 115, 101, 109, 105, 61, 37, 51, 66, 47, 100, 111, 116, 61, 46, 47, 99, 111, 109, 109, 97, 61, 37, 50, 67>>>>,
  <<<<123, 59, 119, 104, 111, 125>>, <<59, 119, 104, 111, 61, 102, 114, 101, 100>>>>,
  <<<<123, 59, 104, 97, 108, 102, 125>>, <<59, 104, 97, 108, 102, 61, 53, 48, 37, 50, 53>>>>,
  <<<<123, 59, 101, 109, 112, 116, 121, 125>>, <<59, 101, 109, 112, 116, 121>>>>,
  <<<<123, 59, 118, 44, 101, 109, 112, 116, 121, 44, 119, 104, 111, 125>>, <<59, 118, 61, 54, 59, 101, 109, 112, 116, 121, 59, 119, 104, 111, 61, 102, 114, 101, 100>>>>,
  <<<<123, 59, 118, 44, 98, 97, 114, 44, 119, 104, 111, 125>>, <<59, 118, 61, 54, 59, 119, 104, 111, 61, 102, 114, 101, 100>>>>,
  <<<<123, 59, 120, 44, 121, 125>>, <<59, 120, 61, 49, 48, 50, 52, 59, 121, 61, 55, 54, 56>>>>,
  <<<<123, 59, 120, 44, 121, 44, 101, 109, 112, 116, 121, 125>>, <<59, 120, 61, 49, 48, 50, 52, 59, 121, 61, 55, 54, 56, 59, 101, 109, 112, 116, 121>>>>,
  <<<<123, 59, 120, 44, 121, 44, 117, 110, 100, 101, 102, 125>>, <<59, 120, 61, 49, 48, 50, 52, 59, 121, 61, 55, 54, 56>>>>,
  <<<<123, 59, 104, 101, 108, 108, 111, 58, 53, 125>>, <<59, 104, 101, 108, 108, 111, 61, 72, 101, 108, 108, 111>>>>,
  <<<<123, 59, 108, 105, 115, 116, 125>>, <<59, 108, 105, 115, 116, 61, 114, 101, 100, 44, 103, 114, 101, 101, 110, 44, 98, 108, 117, 101>>>>,
  <<<<123, 59, 108, 105, 115, 116, 42, 125>>, <<59, 108, 105, 115, 116, 61, 114, 101, 100, 59, 108, 105, 115, 116, 61, 103, 114, 101, 101, 110, 59, 108, 105, 115, 116, 61, 98, 108, 117, 101>>>>,
  <<<<123, 59, 107, 101, 121, 115, 125>>, <<59, 107, 101, 121, 115, 61, 115, 101, 109, 105, 44, 37, 51, 66, 44, 100, 111, 116, 44, 46, 44, 99, 111, 109, 109, 97, 44, 37, 50, 67>>>>,
  <<<<123, 59, 107, 101, 121, 115, 42, 125>>, <<59, 115, 101, 109, 105, 61, 37, 51, 66, 59, 100, 111, 116, 61, 46, 59, 99, 111, 109, 109, 97, 61, 37, 50, 67>>>>,
  <<<<123, 63, 119, 104, 111, 125>>, <<63, 119, 104, 111, 61, 102, 114, 101, 100>>>>,
  <<<<123, 63, 104, 97, 108, 102, 125>>, <<63, 104, 97, 108, 102, 61, 53, 48, 37, 50, 53>>>>,
  <<<<123, 63, 120, 44, 121, 125>>, <<63, 120, 61, 49, 48, 50, 52, 38, 121, 61, 55, 54, 56>>>>,
  <<<<123, 63, 120, 44, 121, 44, 101, 109, 112, 116, 121, 125>>, <<63, 120, 61, 49, 48, 50, 52, 38, 121, 61, 55, 54, 56, 38, 101, 109, 112, 116, 121, 61>>>>,
  <<<<123, 63, 120, 44, 121, 44, 117, 110, 100, 101, 102, 125>>, <<63, 120, 61, 49, 48, 50, 52, 38, 121, 61, 55, 54, 56>>>>,
  <<<<123, 63, 118, 97, 114, 58, 51, 125>>, <<63, 118, 97, 114, 61, 118, 97, 108>>>>,
  <<<<123, 63, 108, 105, 115, 116, 125>>, <<63, 108, 105, 115, 116, 61, 114, 101, 100, 44, 103, 114, 101, 101, 110, 44, 98, 108, 117, 101>>>>,
  <<<<123, 63, 108, 105, 115, 116, 42, 125>>, <<63, 108, 105, 115, 116, 61, 114, 101, 100, 38, 108, 105, 115, 116, 61, 103, 114, 101, 101, 110, 38, 108, 105, 115, 116, 61, 98, 108, 117, 101>>>>,
  <<<<123, 63, 107, 101, 121, 115, 125>>, <<63, 107, 101, 121, 115, 61, 115, 101, 109, 105, 44, 37, 51, 66, 44, 100, 111, 116, 44, 46, 44, 99, 111, 109, 109, 97, 44, 37, 50, 67>>>>,
  <<<<123, 63, 107, 101, 121, 115, 42, 125>>, <<63, 115, 101, 109, 105, 61, 37, 51, 66, 38, 100, 111, 116, 61, 46, 38, 99, 111, 109, 109, 97, 61, 37, 50, 67>>>>,
  <<<<123, 38, 119, 104, 111, 125>>, <<38, 119, 104, 111, 61, 102, 114, 101, 100>>>>,
  <<<<123, 38, 104, 97, 108, 102, 125>>, <<38, 104, 97, 108, 102, 61, 53, 48, 37, 50, 53>>>>,
  <<<<63, 102, 105, 120, 101, 100, 61, 121, 101, 115, 123, 38, 120, 125>>, <<63, 102, 105, 120, 101, 100, 61, 121, 101, 115, 38, 120, 61, 49, 48, 50, 52>>>>,
  <<<<123, 38, 120, 44, 121, 44, 101, 109, 112, 116, 121, 125>>, <<38, 120, 61, 49, 48, 50, 52, 38, 121, 61, 55, 54, 56, 38, 101, 109, 112, 116, 121, 61>>>>,
  <<<<123, 38, 120, 44, 121, 44, 117, 110, 100, 101, 102, 125>>, <<38, 120, 61, 49, 48, 50, 52, 38, 121, 61, 55, 54, 56>>>>,
  <<<<123, 38, 118, 97, 114, 58, 51, 125>>, <<38, 118, 97, 114, 61, 118, 97, 108>>>>,
  <<<<123, 38, 108, 105, 115, 116, 125>>, <<38, 108, 105, 115, 116, 61, 114, 101, 100, 44, 103, 114, 101, 101, 110, 44, 98, 108, 117, 101>>>>,
  <<<<123, 38, 108, 105, 115, 116, 42, 125>>, <<38, 108, 105, 115, 116, 61, 114, 101, 100, 38, 108, 105, 115, 116, 61, 103, 114, 101, 101, 110, 38, 108, 105, 115, 116, 61, 98, 108, 117, 101>>>>,
  <<<<123, 38, 107, 101, 121, 115, 125>>, <<38, 107, 101, 121, 115, 61, 115, 101, 109, 105, 44, 37, 51, 66, 44, 100, 111, 116, 44, 46, 44, 99, 111, 109, 109, 97, 44, 37, 50, 67>>>>,
  <<<<123, 38, 107, 101, 121, 115, 42, 125>>, <<38, 115, 101, 109, 105, 61, 37, 51, 66, 38, 100, 111, 116, 61, 46, 38, 99, 111, 109, 109, 97, 61, 37, 50, 67>>>>
>>
Rfc6570Ok ==
  \A i \in 1..Len(Examples6570) : \A sp \in {"uri", "iri"}, lax \in BOOLEAN :
    Expand(sp, Examples6570[i][1], Env6570, lax) = Examples6570[i][2] /\ Expandable(Examples6570[i][1], Env6570)
=============================================================================
