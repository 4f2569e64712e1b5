---------------------------- MODULE MCDiscovery ----------------------------
(***************************************************************************)
(* All ways in which the writer may divide a stream (into up to MaxWrites  *)
(* writes) and the reader's reads may divide it further.  Every division   *)
(* the writer can choose is emitted as a test.                             *)
(***************************************************************************)
EXTENDS Discovery, Json
CONSTANTS Streams, MaxWrites, AnyReads

VARIABLES vStream, vW, vRd, vCuts
vars == <<vStream, vW, vRd, vCuts>>

Hello(p) == EncodeTyped("parent_hello", <<B("sec"), p>>)
R(ty, args) == Render(B(ty), args)
Small == { Hello(B("/a")), Hello(<<47, 255, 254, 0>>), Hello(<<>>), Hello(B("/s")) \o B("{1|"), Hello(B("/x y")) \o Hello(B("/b")),
           R("posix1.parent-hello", <<B("s")>>), R("posix1.parent-hello", <<B("s"), B("/p"), <<>>>>), R("posix1.parent-hello", <<<<255>>, B("/p")>>),
           R("posix1.client-hello", <<B("s")>>), R("want", <<B("core1")>>), R("zz9.zz", <<>>), <<>>, B("{"), B("x"), B("{1|"), B("{1}"), B("{2|4:want,5:core1"),
           B("{1|4:wang,}"), B("{00|"), B("{1|4:want,}}"), B("{1|5:want,}"), <<255>>, B("\\n") }

Few == { Hello(B("/a")), Hello(<<47, 255>>) \o B("{"), R("want", <<B("core1")>>), B("{1|"), B("{00|"), B("{1|4:wang,}"), <<>> }

Init == /\ vStream \in Streams /\ vW = 0 /\ vRd = Reader0 /\ vCuts = <<>>
Write == /\ vW < Len(vStream) /\ ~vRd.eof /\ Len(vCuts) < MaxWrites
         /\ \E n \in (IF Len(vCuts) = MaxWrites - 1 THEN {Len(vStream)} ELSE (vW + 1)..Len(vStream)) :
              vW' = n /\ vCuts' = Append(vCuts, n)
         /\ UNCHANGED <<vStream, vRd>>
Close == /\ ~vRd.eof /\ (vW = Len(vStream)) /\ vRd' = [vRd EXCEPT !.eof = TRUE] /\ UNCHANGED <<vStream, vW, vCuts>>
         /\ PrintT("@@0 " \o ToJson([case |-> [op |-> "discover", kind |-> "pipe", stream |-> vStream, cuts |-> vCuts],
                                     exp |-> [out |-> Outcome(vStream), early |-> ~Wants(vStream) /\ vStream # <<>>]]))
Break == /\ ~vRd.eof /\ (vW = Len(vStream)) /\ vRd' = [vRd EXCEPT !.eof = TRUE, !.broken = TRUE] /\ UNCHANGED <<vStream, vW, vCuts>>
         /\ PrintT("@@0 " \o ToJson([case |-> [op |-> "discover", kind |-> "reset", stream |-> vStream, cuts |-> vCuts],
                                     exp |-> [out |-> OutcomeBroken(vStream), early |-> FALSE]]))
\* without AnyReads a read takes all there is, before the next write (what a test can arrange)
Read == /\ CanRead(vRd, vStream, vW)
        /\ \E n \in (IF AnyReads /\ Readable(vRd, vStream, vW) > 0 THEN 1..Readable(vRd, vStream, vW) ELSE {Readable(vRd, vStream, vW)}) :
             vRd' = ReadN(vRd, vStream, n)
        /\ UNCHANGED <<vStream, vW, vCuts>>
Idle == vRd.done /\ vRd.eof /\ UNCHANGED vars
Next == Write \/ Read \/ Close \/ Break \/ Idle
Spec == Init /\ [][Next]_vars /\ WF_vars(Read) /\ WF_vars(Write) /\ WF_vars(Close \/ Break)
\* how the bytes came is irrelevant to what happens next
ViewReads == <<vStream, vW, vRd>>

Inv == Faithful(vRd, vStream) /\ Prompt(vRd, vStream, vW) /\ Modest(vRd)
Terminates == <>(vRd.done)
=============================================================================
