---------------------------- MODULE OracleQueue ----------------------------
(* What clients must read in long sessions with several connections: each  *)
(* connection has its own queue; reading happens whenever it happens.      *)
EXTENDS SendQueue, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES vIdx, vDone
Conns(c) == 1..c.conns
OpsOf(c, k) == SelectSeq(c.ops, LAMBDA o : o[1] = "e" /\ (o[3] = k \/ o[3] = 0))
Queued(c, k) == FoldLeft(LAMBDA acc, o : IF c.kinds[k] = "msg" THEN <<PutMsg(acc[1], acc[2], o[2]), acc[2] + 1>> ELSE <<PutStdin(acc[1], acc[2], o[2]), acc[2] + 1>>, <<<<>>, 1>>, OpsOf(c, k))
Stream(c, k) == LET f == Flat(Queued(c, k)[1]) IN IF \A r \in ToSet(f) : r[2] > 0 THEN f ELSE Assert(FALSE, "empty run")
Init == vIdx \in 1..Len(Cases) /\ vDone = FALSE /\ SqInit(<<>>)
Next == /\ ~vDone
        /\ PrintT("@@" \o ToString(vIdx) \o " " \o ToJson([k \in Conns(Cases[vIdx]) |-> Stream(Cases[vIdx], k)]))
        /\ vDone' = TRUE
        /\ UNCHANGED <<vIdx, sqVars>>
Spec == Init /\ [][Next]_<<vIdx, vDone>>
=============================================================================
