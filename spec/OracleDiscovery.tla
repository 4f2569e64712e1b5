-------------------------- MODULE OracleDiscovery --------------------------
(***************************************************************************)
(* The outcome of discovery for given descriptors and streams.             *)
(***************************************************************************)
EXTENDS Discovery, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES vIdx, vDone

\* The reader of the model, given exactly these writes, comes to that outcome.
RunReads(c) ==
  LET rd == FoldLeft(LAMBDA r, p : IF r.done \/ p <= Len(r.buf) THEN r
                                   ELSE ReadN(r, c.stream, Readable(r, c.stream, p)), Reader0, Append(c.cuts, Len(c.stream)))
      br == [rd EXCEPT !.eof = TRUE, !.broken = c.kind = "reset"]
  IN IF rd.done THEN rd ELSE ReadN(br, c.stream, 0)
Early(c) == c.kind \in {"pipe", "socket"} /\ c.stream # <<>> /\ ~Wants(Upto(c.stream, IF Len(c.stream) < Cap THEN Len(c.stream) ELSE Cap))
Init == vIdx \in 1..Len(Cases) /\ vDone = FALSE
Next == /\ ~vDone
        /\ LET c == Cases[vIdx] IN
           /\ PrintT("@@" \o ToString(vIdx) \o " " \o ToJson([out |-> OutcomeOf(c.kind, c.stream), early |-> Early(c)]))
           /\ Assert(c.kind \notin {"pipe", "socket", "reset"} \/ (Faithful(RunReads(c), c.stream) /\ (~Early(c) /\ c.kind # "reset" => RunReads(c).eof)), <<"faithful", vIdx>>)
        /\ vDone' = TRUE /\ UNCHANGED vIdx
Spec == Init /\ [][Next]_<<vIdx, vDone>>
=============================================================================
