------------------------------ MODULE MCTyped ------------------------------
(***************************************************************************)
(* Typed messages: starting from a valid message of each type, up to       *)
(* MaxMut fields are replaced, appended or dropped, or the type is         *)
(* exchanged.  Decoding each result as every type is emitted as a test.    *)
(***************************************************************************)
EXTENDS Messages, Json
CONSTANTS MaxMut

VARIABLES vName, vArgs, vMuts
Pool == { B(t) : t \in {"", "a1", "core1", "core1.2", "core1.x", "want", "x y", "core0", "0", "-", "a", "b"} }
          \union { <<255>>, <<195, 169>>, <<0>> }
Valid(kind) ==
  CASE kind = "modid" -> B("foo2") [] kind = "modver_or_modid" -> B("foo2.7") [] kind = "mt" -> B("foo2.bar")
    [] kind = "cid" -> B("Ab0") [] kind = "opt_str" -> B("scr") [] kind = "str" -> B("sec") [] kind = "path" -> B("/run/x")
Extra == {"core1.client-Make", "core2.client-make", "posix1.hello", "foo2.bar"}
Type(nm) == IF nm \in MsgNames THEN TyBytes[nm] ELSE B(nm)

Init == /\ vName \in MsgNames
        /\ vArgs = Tup([i \in 1..Len(MsgTypes[vName].fields) |-> Valid(MsgTypes[vName].fields[i])], Len(MsgTypes[vName].fields))
        /\ vMuts = 0
Next == /\ vMuts < MaxMut
        /\ vMuts' = vMuts + 1
        /\ \/ UNCHANGED vName /\ \E i \in 1..Len(vArgs), v \in Pool : vArgs' = [vArgs EXCEPT ![i] = v]
           \/ UNCHANGED vName /\ \E v \in Pool : vArgs' = Append(vArgs, v)
           \/ UNCHANGED vName /\ \E i \in 1..Len(vArgs) : vArgs' = RemoveAt(vArgs, i)
           \/ UNCHANGED vArgs /\ vName' \in MsgNames \union Extra
Spec == Init /\ [][Next]_<<vName, vArgs, vMuts>>
View == <<vName, vArgs>>

Lemmas == /\ Cardinality(DecodesAs(Type(vName), vArgs)) <= 1
          /\ vName \in MsgNames => TypedRoundTrip(vName, vArgs)
          /\ vName \in MsgNames => (TypedOk(vName, Type(vName), vArgs) <=>
               /\ Len(vArgs) = Len(MsgTypes[vName].fields)
               /\ \A i \in 1..Len(vArgs) : FieldOk(MsgTypes[vName].fields[i], vArgs[i]))

Emit ==
  LET w == Render(Type(vName), vArgs)
      r == Parse(w) IN
  /\ PrintT("@@0 " \o ToJson([case |-> [op |-> "parse", buf |-> w],
       exp |-> [ r |-> r, disp |-> Display(r.ty, r.args), dec |-> DecodesAs(r.ty, r.args),
                 have |-> IF Len(r.args) = 1 THEN HaveVariant(r.args[1]) ELSE "none" ]]))
  /\ IF vName \in MsgNames /\ TypedOk(vName, Type(vName), vArgs)
     THEN LET caps == <<0, 1, Len(w) - 1, Len(w), Len(w) + 1, 1024, 2000>> IN
          PrintT("@@0 " \o ToJson([case |-> [op |-> "tenc", name |-> vName, fields |-> vArgs, caps |-> caps],
            exp |-> [wire |-> w, caps |-> Tup([i \in 1..7 |-> LET q == EncodeTypedInto(vName, vArgs, caps[i]) IN [ok |-> q.ok, n |-> q.n]], 7)]]))
     ELSE TRUE
=============================================================================
