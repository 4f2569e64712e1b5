---------------------------- MODULE MCClientIds ----------------------------
(***************************************************************************)
(* The hierarchy laws for every pair of suffixes over an index set around  *)
(* the digit-count boundaries (61, 122, ...), and every suffix emitted.    *)
(***************************************************************************)
EXTENDS ClientIds, Json
CONSTANTS Idx

Small == { <<0, 1>>, <<0, 2>>, <<0, 60>>, <<1, 0>>, <<1, 1>>, <<1, 60>>, <<2, 0>>, <<2, 1>> }
Large == { <<q, r>> : q \in 0..3, r \in {0, 1, 2, 9, 10, 11, 35, 36, 37, 59, 60} } \ { <<0, 0>> }
Base == B("b0")

SuffixesOver(I) == { [k |-> "own", a |-> <<0, 1>>, b |-> <<0, 1>>] }
       \union { [k |-> kk, a |-> i, b |-> <<0, 1>>] : kk \in {"local", "job"}, i \in I }
       \union { [k |-> "child", a |-> i, b |-> j] : i, j \in I }
AsId(x) == [base |-> Base, k |-> x.k, a |-> x.a, b |-> x.b]
AllSuffixes == SuffixesOver(Idx)
SufSeq == SetToSeq(SuffixesOver(Small))

VARIABLES vS, vDone
Init == vS \in AllSuffixes /\ vDone = FALSE
\* relate vS to all others
Next == /\ ~vDone /\ vDone' = TRUE /\ UNCHANGED vS
        /\ \A t \in AllSuffixes : Assert(Laws(Base, vS, t), <<"hierarchy law", vS, t>>)
        /\ LET ids == <<vS>> \o SufSeq
               e == Tup([i \in 1..Len(ids) |-> Encoded(Base, ids[i])], Len(ids)) IN
           PrintT("@@0 " \o ToJson([case |-> [op |-> "row", ids |-> Tup([i \in 1..Len(ids) |-> AsId(ids[i])], Len(ids))],
              exp |-> [strs |-> e, size |-> SuffixSize(vS),
                       pre |-> Tup([j \in 1..Len(ids) |-> Covers(vS, ids[j])], Len(ids)),
                       rev |-> Tup([j \in 1..Len(ids) |-> Covers(ids[j], vS)], Len(ids))]]))
Spec == Init /\ [][Next]_<<vS, vDone>>
=============================================================================
