---------------------------- MODULE MCSendQueue ----------------------------
(***************************************************************************)
(* All schedules of enqueueing and transmitting for the given sizes.  Each *)
(* transition that enqueues or swaps is emitted as a test: the schedule    *)
(* leading there.                                                          *)
(***************************************************************************)
EXTENDS SendQueue, Json
CONSTANTS Sizes, Messages, MaxEnq, MaxSwaps, Emit
VARIABLES vPath, vSwaps
Say(op) == IF Emit THEN PrintT("@@0 " \o ToJson([kind |-> IF Messages THEN "msg" ELSE "stdin", ops |-> Append(vPath, op), stream |-> vEnq'])) ELSE TRUE
Step(op) == vPath' = (IF Emit THEN Append(vPath, op) ELSE <<>>) /\ Say(op)
\* The greeting has been sent on a message connection.
Init == SqInit(IF Messages THEN << <<>> >> ELSE <<>>) /\ vPath = <<>> /\ vSwaps = 0
Transmit == \/ Wake /\ UNCHANGED <<vPath, vSwaps>>
            \/ Swap /\ vSwaps < MaxSwaps /\ vSwaps' = (IF Emit THEN vSwaps + 1 ELSE 0) /\ Step(<<"t">>)
            \/ Write /\ UNCHANGED <<vPath, vSwaps>>
Next == Transmit \/ \E n \in Sizes : Len(vEnq) < MaxEnq /\ Enq(n, Messages) /\ Step(<<"e", n>>) /\ UNCHANGED vSwaps
Spec == Init /\ [][Next]_<<sqVars, vPath, vSwaps>> /\ WF_<<sqVars, vPath, vSwaps>>(Transmit)
\* The transmitter's schedule matters only through the queue: runs on the wire are forgotten, tags are renamed.
View == <<[i \in 1..Len(vBufs) |-> Used(vBufs[i])], Len(vHeld), vPc, vPermit, Len(vEnq), vSwaps>>
=============================================================================
