----------------------------- MODULE MCSecrets -----------------------------
(***************************************************************************)
(* Issuing, in small: bytes of randomness are drawn from Draws (three at a *)
(* time), never the same draw twice; secrets issued are distinct and can   *)
(* be read back.                                                           *)
(***************************************************************************)
EXTENDS Secrets
CONSTANTS Draws, MaxIssued
VARIABLES vUsed, vIssued
ManyDraws == {<<a, b, c>> : a \in {0, 1, 62, 128, 255}, b \in {0, 15, 16, 255}, c \in {0, 3, 64, 251, 255}}
FewDraws == {<<a, b, c>> : a \in {0, 3, 128}, b \in {0, 1}, c \in {0, 1, 3}}
Init == vUsed = {} /\ vIssued = <<>>
Issue == /\ Len(vIssued) < MaxIssued
         /\ \E d \in Draws \ vUsed : vUsed' = vUsed \union {d} /\ vIssued' = Append(vIssued, Encode64(d))
Next == Issue \/ UNCHANGED <<vUsed, vIssued>>
Spec == Init /\ [][Next]_<<vUsed, vIssued>>
Distinct == \A i, j \in 1..Len(vIssued) : i # j => vIssued[i] # vIssued[j]
\* the three bytes can be recovered from the four characters
Faithful == \A d \in vUsed : \E i \in 1..Len(vIssued) : Pack(vIssued[i]) = <<d[1] * 65536 + d[2] * 256 + d[3]>>
\* elimination agrees with the definition of rank: it is the number of vectors of which no nonempty set sums to nothing
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN <<0>> ELSE LET x == CHOOSE x \in S : TRUE IN Plus(x, Sum(S \ {x}))
Free(S) == \A T \in SUBSET S : T # {} => Sum(T) # <<0>>
RankOk == LET vs == [i \in 1..Len(vIssued) |-> Pack(vIssued[i])]
              S == {vs[i] : i \in 1..Len(vs)} IN
          Free(S) <=> Rank(vs, 1) = Len(vs)
Inv == Distinct /\ Faithful /\ RankOk /\ (\A i \in 1..Len(vIssued) : AllIn(vIssued[i], Alphabet) /\ Len(vIssued[i]) = 4)
=============================================================================
