----------------------------- MODULE MCDispatch -----------------------------
(* Instances of Dispatch to be explored exhaustively. *)
EXTENDS Dispatch

\* broadcasts: 1 note, 2 note, 3 kill connection 1, 4 nest 5, 5 note, 6 nop, 7 kill connection 2;
\* 101, 102: those registered by handlers
Kinds == (1 :> <<"note">>) @@ (2 :> <<"note">>) @@ (3 :> <<"kill", 1>>) @@ (4 :> <<"nest", 5>>) @@ (5 :> <<"note">>) @@ (6 :> <<"nop">>)
         @@ (7 :> <<"kill", 2>>) @@ (8 :> <<"note">>) @@ (101 :> <<"note">>) @@ (102 :> <<"note">>)

In_msgs == << <<"echo", "bc">>, <<"echo">> >>
In_ends == << <<"echo", "quit">>, <<"bc", "hup">> >>
In_one == << <<"echo", "bc", "hup">> >>
In_quiet == << <<>>, <<"echo">> >>
In_three == << <<"echo">>, <<"bc">>, <<"quit">> >>
Regs_two == << <<1>>, <<2>> >>
Regs_seq == << <<1, 2>> >>
Regs_kill == << <<3>>, <<1>> >>
Regs_nest == << <<4, 1>> >>
Regs_mix == << <<4>>, <<3, 2>> >>
Regs_one == << <<1>> >>
NoOne == None
Eight == 8
=============================================================================
