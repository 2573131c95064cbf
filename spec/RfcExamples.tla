----------------------------- MODULE RfcExamples -----------------------------
(* RFC 3986 section 5.4 (base http://a/b/c/d;p?q) and section 6.2.2, as code points; *)
(* generated by hand from the RFC text.                                     *)
Base54 == <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 100, 59, 112, 63, 113>>
Resolution54 == << <<<<103, 58, 104>>, <<103, 58, 104>>>>,
  <<<<103>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 103>>>>,
  <<<<46, 47, 103>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 103>>>>,
  <<<<103, 47>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 103, 47>>>>,
  <<<<47, 103>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 103>>>>,
  <<<<47, 47, 103>>, <<104, 116, 116, 112, 58, 47, 47, 103>>>>,
  <<<<63, 121>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 100, 59, 112, 63, 121>>>>,
  <<<<103, 63, 121>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 103, 63, 121>>>>,
  <<<<35, 115>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 100, 59, 112, 63, 113, 35, 115>>>>,
  <<<<103, 35, 115>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 103, 35, 115>>>>,
  <<<<103, 63, 121, 35, 115>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 103, 63, 121, 35, 115>>>>,
  <<<<59, 120>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 59, 120>>>>,
  <<<<103, 59, 120>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 103, 59, 120>>>>,
  <<<<103, 59, 120, 63, 121, 35, 115>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 103, 59, 120, 63, 121, 35, 115>>>>,
  <<<<>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 100, 59, 112, 63, 113>>>>,
  <<<<46>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47>>>>,
  <<<<46, 47>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47>>>>,
  <<<<46, 46>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47>>>>,
  <<<<46, 46, 47>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47>>>>,
  <<<<46, 46, 47, 103>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 103>>>>,
  <<<<46, 46, 47, 46, 46>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47>>>>,
  <<<<46, 46, 47, 46, 46, 47>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47>>>>,
  <<<<46, 46, 47, 46, 46, 47, 103>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 103>>>>,
  <<<<46, 46, 47, 46, 46, 47, 46, 46, 47, 103>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 103>>>>,
  <<<<46, 46, 47, 46, 46, 47, 46, 46, 47, 46, 46, 47, 103>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 103>>>>,
  <<<<47, 46, 47, 103>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 103>>>>,
  <<<<47, 46, 46, 47, 103>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 103>>>>,
  <<<<103, 46>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 103, 46>>>>,
  <<<<46, 103>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 46, 103>>>>,
  <<<<103, 46, 46>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 103, 46, 46>>>>,
  <<<<46, 46, 103>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 46, 46, 103>>>>,
  <<<<46, 47, 46, 46, 47, 103>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 103>>>>,
  <<<<46, 47, 103, 47, 46>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 103, 47>>>>,
  <<<<103, 47, 46, 47, 104>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 103, 47, 104>>>>,
  <<<<103, 47, 46, 46, 47, 104>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 104>>>>,
  <<<<103, 59, 120, 61, 49, 47, 46, 47, 121>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 103, 59, 120, 61, 49, 47, 121>>>>,
  <<<<103, 59, 120, 61, 49, 47, 46, 46, 47, 121>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 121>>>>,
  <<<<103, 63, 121, 47, 46, 47, 120>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 103, 63, 121, 47, 46, 47, 120>>>>,
  <<<<103, 63, 121, 47, 46, 46, 47, 120>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 103, 63, 121, 47, 46, 46, 47, 120>>>>,
  <<<<103, 35, 115, 47, 46, 47, 120>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 103, 35, 115, 47, 46, 47, 120>>>>,
  <<<<103, 35, 115, 47, 46, 46, 47, 120>>, <<104, 116, 116, 112, 58, 47, 47, 97, 47, 98, 47, 99, 47, 103, 35, 115, 47, 46, 46, 47, 120>>>>,
  <<<<104, 116, 116, 112, 58, 103>>, <<104, 116, 116, 112, 58, 103>>>> >>
Normal62 == << <<<<101, 88, 65, 77, 80, 76, 69, 58, 47, 47, 97, 47, 46, 47, 98, 47, 46, 46, 47, 98, 47, 37, 54, 51, 47, 37, 55, 98, 102, 111, 111, 37, 55, 100>>, <<101, 120, 97, 109, 112, 108, 101, 58, 47, 47, 97, 47, 98, 47, 99, 47, 37, 55, 66, 102, 111, 111, 37, 55, 68>>>>,
  <<<<72, 84, 84, 80, 58, 47, 47, 119, 119, 119, 46, 69, 88, 65, 77, 80, 76, 69, 46, 99, 111, 109, 47>>, <<104, 116, 116, 112, 58, 47, 47, 119, 119, 119, 46, 101, 120, 97, 109, 112, 108, 101, 46, 99, 111, 109, 47>>>>,
  <<<<97, 58, 47, 98, 47, 46, 46, 47, 47, 99>>, <<97, 58, 47, 46, 47, 47, 99>>>> >>
=============================================================================
