---------------------------- MODULE MCSelectors ----------------------------
EXTENDS Selectors, Json
CONSTANTS Alpha, MaxLen
AlphaC == {97, 65, 48}
RECURSIVE Strs(_)
Strs(n) == IF n = 1 THEN {<<b>> : b \in Alpha} ELSE {Append(x, b) : x \in Strs(n - 1), b \in Alpha}
Ids == UNION {Strs(n) : n \in 1..MaxLen}
IdSeq == SetToSeq(Ids)

VARIABLES vA, vDone
Init == vA \in Ids /\ vDone = FALSE
Next == /\ ~vDone /\ vDone' = TRUE /\ UNCHANGED vA
        /\ \A b, c \in Ids : Assert(SelectorLaws(vA, b, c), <<"selector law", vA, b, c>>)
        /\ PrintT("@@0 " \o ToJson([case |-> [op |-> "selrow", a |-> vA, ids |-> IdSeq],
             exp |-> [at |-> Tup([i \in 1..Len(IdSeq) |-> AtOrBelow(vA, IdSeq[i])], Len(IdSeq)),
                      st |-> Tup([i \in 1..Len(IdSeq) |-> StrictlyBelow(vA, IdSeq[i])], Len(IdSeq))]]))
Spec == Init /\ [][Next]_<<vA, vDone>>
=============================================================================
