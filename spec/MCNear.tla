------------------------------- MODULE MCNear ------------------------------
(***************************************************************************)
(* Everything one edit away from well-formed words: each byte replaced by  *)
(* every byte, every byte inserted everywhere, each byte dropped, two      *)
(* neighbours exchanged.  Results are parsed as messages (Op = "parse") or *)
(* classified and decoded as arguments (Op = "arg").                       *)
(***************************************************************************)
EXTENDS Messages, Json
CONSTANTS Base, Op

VARIABLES vWord, vDone
Msgs_ == { B("{2|4:want,6:core12,}"), B("{3|8:a1.b-c_D,0:,3:{1|,}") }
Args_ == { B(t) : t \in {"aZ", "_b-c", "core1", "f12.340", "a1.b-c", "want", "t", "f", "-12", "250", "9Az0"} }

Put(w, p, b) == Upto(w, p - 1) \o <<b>> \o From(w, p + 1)
Insert(w, p, b) == Upto(w, p - 1) \o <<b>> \o From(w, p)
Drop(w, p) == Upto(w, p - 1) \o From(w, p + 1)
Swap(w, p) == Upto(w, p - 1) \o <<w[p + 1], w[p]>> \o From(w, p + 2)
Near(w) == { Put(w, p, b) : p \in 1..Len(w), b \in 0..255 } \union { Insert(w, p, b) : p \in 1..(Len(w) + 1), b \in 0..255 }
           \union { Drop(w, p) : p \in 1..Len(w) } \union { Swap(w, p) : p \in 1..(Len(w) - 1) }

Init == vWord \in Base /\ vDone = FALSE
Next == ~vDone /\ vDone' = TRUE /\ vWord' \in Near(vWord)
Spec == Init /\ [][Next]_<<vWord, vDone>>
View == vWord

Lemmas ==
  IF Op = "arg" THEN Disjoint(vWord) /\ Recompose(vWord)
  ELSE ParseIsGrammar(vWord) /\ LET r == Parse(vWord) IN r.st = "ok" => DisplayReadable(r.ty, r.args) /\ RenderParses(r.ty, r.args, <<>>)
Emit ==
  IF Op = "arg" THEN PrintT("@@0 " \o ToJson([case |-> [op |-> "arg", s |-> vWord], exp |-> ArgAnswer(vWord)]))
  ELSE LET r == Parse(vWord) IN
  PrintT("@@0 " \o ToJson([case |-> [op |-> "parse", buf |-> vWord],
     exp |-> [ r |-> r,
       disp |-> IF r.st = "ok" THEN Display(r.ty, r.args) ELSE <<>>,
       dec |-> IF r.st = "ok" THEN DecodesAs(r.ty, r.args) ELSE {},
       have |-> IF r.st = "ok" /\ Len(r.args) = 1 THEN HaveVariant(r.args[1]) ELSE "none" ]]))
=============================================================================
