------------------------------- MODULE MCArg -------------------------------
(***************************************************************************)
(* Enumerates every byte string of up to MaxTok tokens of an alphabet, classifies  *)
(* it as every kind of name and decodes it as every kind of argument.      *)
(***************************************************************************)
EXTENDS Messages, Json
CONSTANTS Alpha, MaxTok

VARIABLES vWord, vTok
Names   == { <<b>> : b \in {97, 90, 95, 45, 46, 48, 49, 57, 32, 43, 195} }
Numbers == { <<b>> : b \in {48, 49, 50, 53, 54, 57, 45, 43, 116, 102, 32} }
\* whole words: boundaries of the number ranges inside names
Words == { B(t) : t \in {"a", "core", "want", "-", "_", ".", "0", "1", "65535", "65536", "00", "+1", "Z"} } \union { <<195, 169>> }
\* pieces of UTF-8 sequences, valid and invalid
Utf == { <<b>> : b \in {97, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 236, 237, 238, 239,
                        240, 241, 243, 244, 245, 255} }
Ends == { B(t) : t \in {"-", "+", "0", "1", "12", "25", "5", "6", "7", "8", "3276", "6553", "429496729", "214748364",
                        "1844674407370955161", "922337203685477580", "34028236692093846346337460743176821145",
                        "17014118346046923173168730371588410572"} }

Init == vWord = <<>> /\ vTok = 0
Next == \E t \in Alpha : vTok < MaxTok /\ vWord' = vWord \o t /\ vTok' = vTok + 1
Spec == Init /\ [][Next]_<<vWord, vTok>>

Lemmas ==
  /\ Disjoint(vWord) /\ Recompose(vWord)
  /\ \A t \in IntTypes : IsInt(t, vWord) => IsInt("i128", vWord) \/ t = "u128"

Emit == PrintT("@@0 " \o ToJson([case |-> [op |-> "arg", s |-> vWord], exp |-> ArgAnswer(vWord)]))
=============================================================================
