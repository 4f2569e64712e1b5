---------------------------- MODULE MCSocketPath ---------------------------
EXTENDS SocketPath, TLC, Json
CONSTANTS Procs
VARIABLES vConf, vPs, vEntry
vars == <<vConf, vPs, vEntry>>
Init == /\ vConf \in Configs /\ vEntry = vConf.entry
        /\ vPs = [p \in 1..Procs |-> [pc |-> "start", ok |-> FALSE]]
        /\ PrintT("@@0 " \o ToJson([case |-> vConf, exp |-> Answer(vConf)]))
Next == \/ \E p \in 1..Procs : /\ vPs[p].pc # "done"
                               /\ LET r == Step(vPs, vEntry, p, vConf) IN vPs' = r[1] /\ vEntry' = r[2]
                               /\ UNCHANGED vConf
        \/ (\A p \in 1..Procs : vPs[p].pc = "done") /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* C24: everybody gets the same answer, whoever creates the directory, and nothing else is touched
Inv == /\ \A p \in 1..Procs : vPs[p].pc = "done" => vPs[p].ok = Answer(vConf).ok
       /\ vEntry # vConf.entry => Answer(vConf).creates /\ vEntry = "dir"
       /\ (\A p \in 1..Procs : vPs[p].pc = "done") /\ Answer(vConf).ok => Usable(vEntry)
=============================================================================
