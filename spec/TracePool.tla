------------------------------ MODULE TracePool -----------------------------
(* Judges recorded histories of the real dispatch by Pool.tla. *)
EXTENDS Pool, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES vIdx, vDone
\* <<states, position of the first event that is not allowed or 0, position>>
Feed1(acc, e) ==
  IF acc[2] # 0 THEN acc
  ELSE LET N == Step(acc[1], e) IN <<N, IF N = {} THEN acc[3] + 1 ELSE 0, acc[3] + 1>>
Verdict(es) == FoldLeft(Feed1, <<{New}, 0, 0>>, es)[2]
Init == vIdx \in 1..Len(Cases) /\ vDone = FALSE
Next == /\ ~vDone
        /\ PrintT("@@" \o ToString(vIdx) \o " " \o ToString(Verdict(Cases[vIdx].ev)))
        /\ vDone' = TRUE
        /\ UNCHANGED vIdx
Spec == Init /\ [][Next]_<<vIdx, vDone>>
=============================================================================
