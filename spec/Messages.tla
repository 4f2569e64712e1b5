------------------------------ MODULE Messages -----------------------------
(***************************************************************************)
(* The typed messages the library defines (vt6/foundation, vt6/core,       *)
(* vt6/posix).  A field is identified with its encoding; an absent         *)
(* optional field is the empty string.                                     *)
(***************************************************************************)
EXTENDS Wire, Scalar

MsgTypes ==
  [ want         |-> [ty |-> "want",                fields |-> <<"modid">>],
    have         |-> [ty |-> "have",                fields |-> <<"modver_or_modid">>],
    nope         |-> [ty |-> "nope",                fields |-> <<"mt">>],
    client_make  |-> [ty |-> "core1.client-make",   fields |-> <<"cid", "opt_str", "opt_str", "opt_str">>],
    client_new   |-> [ty |-> "core1.client-new",    fields |-> <<"str">>],
    client_end   |-> [ty |-> "core1.client-end",    fields |-> <<"cid">>],
    client_hello |-> [ty |-> "posix1.client-hello", fields |-> <<"str">>],
    parent_hello |-> [ty |-> "posix1.parent-hello", fields |-> <<"str", "path">>],
    server_hello |-> [ty |-> "posix1.server-hello", fields |-> <<"cid", "opt_str", "opt_str", "opt_str">>],
    stdin_hello  |-> [ty |-> "posix1.stdin-hello",  fields |-> <<"str">>],
    stdout_hello |-> [ty |-> "posix1.stdout-hello", fields |-> <<"str">>] ]
MsgNames == DOMAIN MsgTypes

TyBytes == [n \in MsgNames |-> B(MsgTypes[n].ty)]

FieldOk(kind, s) ==
  CASE kind = "modid" -> IsModuleId(s)
    [] kind = "modver_or_modid" -> IsModuleVersion(s) \/ IsModuleId(s)
    [] kind = "mt" -> IsMessageType(s)
    [] kind = "cid" -> IsClientId(s)
    [] OTHER -> Decodes(kind, s)

\* Does a message (type, arguments) decode as the typed message name?
TypedOk(name, ty, args) ==
  LET d == MsgTypes[name] IN
  /\ ty = TyBytes[name]
  /\ Len(args) = Len(d.fields)
  /\ \A i \in 1..Len(args) : FieldOk(d.fields[i], args[i])

\* The names (at most one) a message decodes as.
DecodesAs(ty, args) == {n \in MsgNames : TypedOk(n, ty, args)}

\* have: which variant
HaveVariant(s) == IF IsModuleVersion(s) THEN "this" ELSE IF IsModuleId(s) THEN "not" ELSE "none"

EncodeTyped(name, fields) == Render(TyBytes[name], fields)
EncodeTypedInto(name, fields, cap) == RenderInto(TyBytes[name], fields, cap)

\* What decoding s as every argument type and every kind of name gives.
ArgAnswer(s) == [ok |-> {t \in AllTypes : Decodes(t, s)}, kinds |-> Kinds(s)]

----------------------------------------------------------------------------
(* Lemmas: encoding then decoding is the identity; a message decodes as at most one type. *)
TypedRoundTrip(name, fields) ==
  (/\ Len(fields) = Len(MsgTypes[name].fields)
   /\ \A i \in 1..Len(fields) : FieldOk(MsgTypes[name].fields[i], fields[i]))
  => LET r == Parse(EncodeTyped(name, fields)) IN
     r.st = "ok" /\ DecodesAs(r.ty, r.args) = {name} /\ r.args = fields
=============================================================================
