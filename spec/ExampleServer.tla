--------------------------- MODULE ExampleServer ----------------------------
(***************************************************************************)
(* The example server: a server with one initial client, one screen and no *)
(* modules of its own, whose standard input is a line that comes every     *)
(* second, and which ends when interrupted.  Explored up to MaxSteps steps *)
(* after Start; every path is emitted for replay on the program.           *)
(***************************************************************************)
EXTENDS Server, Json
CONSTANTS MaxSteps, MaxConns

VARIABLES vSys, vPath,
          vAdmitted,   \* secrets that have been admitted, in order
          vLines,      \* lines of standard input received by each connection
          vOver        \* interrupted

ClientSecret == B("client..........................")
StdinSecret == B("stdin...........................")
StdoutSecret == B("stdout..........................")
Clients0 == << NewClient(B("a"), ClientSecret, <<>>, <<>>, <<>>) >>
Screens0 == << NewScreen(B("screen1"), StdinSecret, StdoutSecret) >>
Sys0 == [NewSys(Clients0, Screens0) EXCEPT !.ext = FALSE]

Line == B("Hello stdin.") \o <<10>>
Hello(n, s) == EncodeTyped(n, <<s>>)
Make(id, sout) == EncodeTyped("client_make", <<B(id), <<>>, sout, <<>>>>)
End(id) == EncodeTyped("client_end", <<B(id)>>)
Pool == { Hello("client_hello", ClientSecret), Hello("stdin_hello", StdinSecret), Hello("stdout_hello", StdoutSecret),
          Hello("client_hello", StdinSecret), Hello("stdin_hello", ClientSecret), Hello("client_hello", Issued(1)), Hello("client_hello", Issued(2)),
          Make("ab", B("screen1")), Make("abc", <<>>), Make("a", <<>>), End("ab"), End("abc"), End("a"), EncodeTyped("want", <<M_core1>>), EncodeTyped("want", <<M_foo2>>), B("x") }
Start == << [k |-> "open"], [k |-> "feed", c |-> 1, b |-> Hello("client_hello", ClientSecret)], [k |-> "open"], [k |-> "open"] >>

StepsOf(sys) ==
  (IF Len(sys.conns) < MaxConns THEN {[k |-> "open"]} ELSE {})
  \union { [k |-> "close", c |-> c] : c \in {d \in 1..Len(sys.conns) : sys.conns[d].mode # "down"} }
  \union { [k |-> "feed", c |-> c, b |-> b] : c \in {d \in 1..Len(sys.conns) : sys.conns[d].mode # "down"}, b \in Pool }

\* What each admission call of a step admitted
Admissions(w) == LET S == SelectSeq(w.log.app, LAMBDA e : e.k \in {"auth_client", "auth_stdin", "auth_stdout"} /\ e.ok) IN [i \in 1..Len(S) |-> S[i].s]

Start0 == FoldLeft(LAMBDA acc, st : LET w == DoStep(acc[1], st) IN <<w.sys, acc[2] \o Admissions(w)>>, <<Sys0, <<>>>>, Start)
Init == /\ vSys = Start0[1]
        /\ vPath = Start
        /\ vAdmitted = Start0[2]
        /\ vLines = [c \in 1..MaxConns |-> 0]
        /\ vOver = FALSE
Step == /\ ~vOver /\ Len(vPath) < Len(Start) + MaxSteps
        /\ \E st \in StepsOf(vSys) :
             LET w == DoStep(vSys, st) IN
             /\ vSys' = w.sys /\ vPath' = Append(vPath, st)
             /\ vAdmitted' = vAdmitted \o Admissions(w)
             /\ (Len(vPath') = Len(Start) + MaxSteps => PrintT("@@0 " \o ToJson([steps |-> vPath'])))
        /\ UNCHANGED <<vLines, vOver>>
\* The line goes to the connections in standard input mode for the screen (see Server, "type"), and
\* nowhere else; it changes nothing.
Tick == /\ ~vOver
        /\ LET w == Bcast([Work(vSys) EXCEPT !.bq = <<[k |-> "type", v |-> B("screen1"), d |-> Line]>>]) IN
           /\ Assert(w.sys = vSys, "a tick changes nothing")
           /\ Assert(\A c \in 1..Len(vSys.conns) : w.log.out[c] = IF vSys.conns[c].mode = "in" THEN Line ELSE <<>>, "the line goes to standard input connections only")
           /\ vLines' = [c \in 1..MaxConns |-> IF c <= Len(vSys.conns) /\ w.log.out[c] # <<>> THEN IF vLines[c] < 2 THEN vLines[c] + 1 ELSE 2 ELSE vLines[c]]
        /\ UNCHANGED <<vSys, vPath, vAdmitted, vOver>>
Interrupt == /\ ~vOver
             /\ vOver' = TRUE
             /\ vSys' = [vSys EXCEPT !.conns = [c \in 1..Len(@) |-> [@[c] EXCEPT !.mode = "down", !.buf = <<>>]]]
             /\ UNCHANGED <<vPath, vAdmitted, vLines>>
Next == Step \/ Tick \/ Interrupt
Spec == Init /\ [][Next]_<<vSys, vPath, vAdmitted, vLines, vOver>>
View == <<vSys, vAdmitted, vLines, vOver>>

\* C22: no secret is admitted twice, at most one connection has the standard input, and what is connected is registered
AdmitOnce == \A i, j \in 1..Len(vAdmitted) : i # j => vAdmitted[i] # vAdmitted[j]
OneInput == Cardinality({c \in 1..Len(vSys.conns) : vLines[c] > 0}) <= 1
Inv == AdmitOnce /\ OneInput /\ RegistryOk(vSys, {B("a")}) /\ (~vOver => ConnsOk(vSys))
=============================================================================
