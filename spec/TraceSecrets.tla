---------------------------- MODULE TraceSecrets ---------------------------
(***************************************************************************)
(* Judges recorded histories of secrets.  Each record is one of            *)
(*   [k |-> "form", s]      one secret                                     *)
(*   [k |-> "bits", ss, w]  ss: sequences of w secrets issued in a row     *)
(*   [k |-> "all", ss]      everything issued, by all processes            *)
(***************************************************************************)
EXTENDS Secrets, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES vIdx, vDone

Vector(row) == FoldLeft(LAMBDA a, s : a \o Pack(s), <<>>, row)
Judge(c) ==
  CASE c.k = "form" -> IF ~WellFormed(c.s) THEN "not 32 characters of URL-safe base64" ELSE IF ~Carried(c.s) THEN "cannot be carried in a hello message" ELSE "ok"
    [] c.k = "bits" -> LET vs == TLCEval([i \in 1..Len(c.ss) |-> Vector(c.ss[i])]) IN
                       IF ~Balanced(vs, 8 * c.w) THEN "some bit is (nearly) always the same"
                       ELSE IF ~Independent(vs, 8 * c.w) THEN "some bits depend on others" ELSE "ok"
    [] c.k = "all" -> IF Cardinality({c.ss[i] : i \in 1..Len(c.ss)}) # Len(c.ss) THEN "the same secret was issued twice" ELSE "ok"

Init == vIdx \in 1..Len(Cases) /\ vDone = FALSE
Next == ~vDone /\ PrintT("@@" \o ToString(vIdx) \o " " \o Judge(Cases[vIdx])) /\ vDone' = TRUE /\ UNCHANGED vIdx
Spec == Init /\ [][Next]_<<vIdx, vDone>>
=============================================================================
