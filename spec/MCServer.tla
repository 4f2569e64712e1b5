------------------------------ MODULE MCServer -----------------------------
(***************************************************************************)
(* Explores the server exhaustively up to MaxSteps steps after Start, with *)
(* up to MaxConns connections and inputs from Pool.  Every transition is   *)
(* emitted as a test: the path that leads there, and what its last step    *)
(* must do.                                                                *)
(***************************************************************************)
EXTENDS Server, Json
CONSTANTS Pool, Start, MaxSteps, MaxConns, SplitSteps

VARIABLES vSys, vPath

M(name, fields) == EncodeTyped(name, fields)
R(ty, args) == Render(B(ty), args)
E_ == <<>>
Hello(s) == M("client_hello", <<B(s)>>)
SinHello(s) == M("stdin_hello", <<B(s)>>)
SoutHello(s) == M("stdout_hello", <<B(s)>>)
Make(id) == M("client_make", <<B(id), E_, E_, E_>>)
MakeS(id) == M("client_make", <<B(id), B("s"), E_, B("t")>>)
End(id) == M("client_end", <<B(id)>>)
Want(m) == M("want", <<B(m)>>)

\* Initially: client a (secret x) and client Q (secret y); screen s (secrets i and o).
Clients0 == << NewClient(B("a"), B("x"), B("s"), E_, B("s")), NewClient(B("Q"), B("y"), E_, E_, E_) >>
Screens0 == << NewScreen(B("s"), B("i"), B("o")), NewScreen(B("t"), B("I"), B("O")) >>
Roots == { B("a"), B("Q") }

\* Handshakes
HsPool == { Hello("x"), Hello("i"), Hello("w"), SinHello("i"), SinHello("x"), SinHello("o"), SoutHello("o"), SoutHello("i"),
            R("posix1.client-hello", <<>>), R("posix1.client-hello", <<B("x"), B("x")>>), R("posix1.stdin-hello", <<B("i"), B("s")>>),
            R("posix1.parent-hello", <<B("x"), B("/p")>>), R("foo2.hello", <<>>), R("foo2.ok", <<>>), Want("core1"), B("x"), B("{1|"), B("{1}"),
            Hello("x") \o Want("core1"), SinHello("i") \o B("z"), SoutHello("o") \o Want("core1"), Hello("w") \o Hello("x"), B("z") \o Hello("x") }
HsStart == << >>
\* Client registrations: a and Q connected
RegPool == { Make("ab"), MakeS("abc"), Make("a"), Make("b"), Make("aB"), Make("Qa"), End("ab"), End("abc"), End("a"), End("aBx"), End("Q"),
             M("client_hello", <<Issued(1)>>), M("client_hello", <<Issued(2)>>), Hello("x") }
RegStart == << [k |-> "open"], [k |-> "feed", c |-> 1, b |-> Hello("x")], [k |-> "open"], [k |-> "feed", c |-> 2, b |-> Hello("y")], [k |-> "open"], [k |-> "open"] >>
\* Messages of all kinds, broken input in between
MsgPool == { Want("core1"), Want("q7"), R("want", <<>>), R("want", <<B("q")>>), R("have", <<B("core1")>>), R("core1.zz", <<>>), R("zz9.zz", <<B("1")>>),
             R("foo2.bad", <<>>), R("foo2.ok", <<>>), R("foo2.echo", <<B("{1|")>>), R("foo2.quit", <<>>) \o Want("core1"), R("foo2.quitbad", <<>>),
             R("foo2.quitunk", <<>>), R("foo2.bcast", <<B("N")>>) \o Want("core1"), R("foo2.type", <<B("s"), <<0, 255>>>>), R("foo2.type", <<B("u"), B("k")>>),
             Hello("x"), SinHello("I"), Make("ab") \o End("ab") \o Make("ab"), B("x"), B("{1|4:wa"), B("nt,}"), B("{2|4:want,5:core1,"), B("}"), B("{"), B("{1|4:wang,}"),
             B("ab{c{") \o Want("core1") \o B("}{2|"), <<255, 123>> }
MsgStart == << [k |-> "open"], [k |-> "feed", c |-> 1, b |-> Hello("x")], [k |-> "open"], [k |-> "feed", c |-> 2, b |-> SinHello("i")],
               [k |-> "open"], [k |-> "feed", c |-> 3, b |-> Hello("y")] >>
\* Standard input and output
IoPool == { B("x"), B("{1|4:want,}"), <<0, 255, 10>>, B("{"), R("foo2.type", <<B("s"), B("D")>>) , R("foo2.type", <<B("t"), B("{1|")>>), SoutHello("o"), SinHello("I"), Hello("x") }
IoStart == << [k |-> "open"], [k |-> "feed", c |-> 1, b |-> Hello("x")], [k |-> "open"], [k |-> "open"] >>

StepsOf(sys) ==
  (IF Len(sys.conns) < MaxConns THEN {[k |-> "open"]} ELSE {})
  \union { [k |-> "close", c |-> c] : c \in {d \in 1..Len(sys.conns) : sys.conns[d].mode # "down"} }
  \union { [k |-> "feed", c |-> c, b |-> b] : c \in {d \in 1..Len(sys.conns) : sys.conns[d].mode # "down"}, b \in Pool }

Sys0 == FoldLeft(LAMBDA s, st : DoStep(s, st).sys, NewSys(Clients0, Screens0), Start)

Summary(w) == [log |-> w.log, conns |-> w.sys.conns, reg |-> w.sys.reg]
Test(st, w) ==
  PrintT("@@0 " \o ToJson([case |-> [op |-> "session", clients |-> Clients0, screens |-> Screens0, steps |-> Append(vPath, st)],
                           exp |-> [rs |-> <<Summary(w)>>]]))
\* Input with the application's own broadcasts is not subject to the splitting law.
Broadcasts(b) == \E p \in 1..Len(b) : HasPrefix(From(b, p), B("10:foo2.bcast")) \/ HasPrefix(From(b, p), B("9:foo2.type"))
Splits(st) == st.k = "feed" /\ ~Broadcasts(vSys.conns[st.c].buf \o st.b)
                => \A k \in 1..(Len(st.b) - 1) : SplitLaw(vSys, st.c, st.b, k)

Init == vSys = Sys0 /\ vPath = Start
Next == /\ Len(vPath) < Len(Start) + MaxSteps
        /\ \E st \in StepsOf(vSys) :
             LET w == DoStep(vSys, st) IN
             /\ vSys' = w.sys /\ vPath' = Append(vPath, st)
             /\ Test(st, w)
             /\ Assert(Len(vPath) >= Len(Start) + SplitSteps \/ Splits(st), <<"splitting law", vSys, st>>)
             /\ st.k = "feed" => Assert(Confined(vSys, st.c, w), <<"confinement", vSys, st>>)
Spec == Init /\ [][Next]_<<vSys, vPath>>
View == vSys

Inv == RegistryOk(vSys, Roots) /\ ConnsOk(vSys)
=============================================================================
