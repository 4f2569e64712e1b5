------------------------------ MODULE MCParse ------------------------------
(***************************************************************************)
(* Enumerates inputs to the parser token by token.  An input is extended   *)
(* as long as it is incomplete, and once or twice beyond that (Slack) so   *)
(* that final results are seen to be final.  Every state is emitted as a   *)
(* test case; the lemmas of Wire.tla are invariants.                       *)
(***************************************************************************)
EXTENDS Messages, Json
CONSTANTS Tokens, MaxTok, Slack

VARIABLES vBuf, vN, vS, vPrev    \* vPrev: length of vBuf before the last token

\* Tokens for complete message structures
Structure == { B(t) : t \in {"{", "}", "0|", "1|", "2|", "3|", "01|", "|", "4:want,", "11:core1.a-b_c,",
   "0:,", "1:x,", "2:{,,", "1:x;", "2:x,", "3:}|:", "4:wan", "4:wang,", "18446744073709551615:a,",
   "18446744073709551616:a,", "18446744073709551615|", "99999999999999999999|", "00:,", "+1|", ":", "," } }
            \union { <<50, 58, 255, 0, 44>>, <<49>>, <<48>> }
\* Single bytes around numbers and sigils
Raw == { <<b>> : b \in {123, 124, 125, 48, 49, 50, 52, 58, 44, 43, 45, 32, 97, 0, 255, 128} }

Init == vBuf = <<>> /\ vN = 0 /\ vS = 0 /\ vPrev = 0
Next == /\ vN < MaxTok
        /\ \/ Incomplete(Parse(vBuf)) /\ vS' = 0
           \/ ~Incomplete(Parse(vBuf)) /\ vS < Slack /\ vS' = vS + 1
        /\ \E t \in Tokens : vBuf' = vBuf \o t
        /\ vN' = vN + 1
        /\ vPrev' = Len(vBuf)
Spec == Init /\ [][Next]_<<vBuf, vN, vS, vPrev>>
View == vBuf

\* vBuf without the last token was a state itself, so only the new cuts need checking
AllCuts == \A k \in (vPrev + 1)..Len(vBuf) : StepMonotone(Upto(vBuf, k))
Lemmas == ParseIsGrammar(vBuf) /\ AllCuts
          /\ LET r == Parse(vBuf) IN r.st = "ok" => DisplayReadable(r.ty, r.args) /\ RenderParses(r.ty, r.args, <<>>)

Emit == LET r == Parse(vBuf) IN
  PrintT("@@0 " \o ToJson([case |-> [op |-> "parse", buf |-> vBuf],
     exp |-> [ r |-> r,
       disp |-> IF r.st = "ok" THEN Display(r.ty, r.args) ELSE <<>>,
       dec |-> IF r.st = "ok" THEN DecodesAs(r.ty, r.args) ELSE {},
       have |-> IF r.st = "ok" /\ Len(r.args) = 1 THEN HaveVariant(r.args[1]) ELSE "none" ]]))
=============================================================================
