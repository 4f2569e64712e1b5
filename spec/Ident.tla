------------------------------- MODULE Ident -------------------------------
(***************************************************************************)
(* The six kinds of names, vt6/foundation sections 2 and 4.2.              *)
(***************************************************************************)
EXTENDS Bytes

DOT == 46
DASH == 45
USCORE == 95

IdentLead == Upper \union Lower \union {USCORE}
IdentChar == IdentLead \union {DASH}

\* 16-bit unsigned number in canonical decimal form
ZERO == B("0")
U16MAX == B("65535")
IsU16(s) == IsCanonNat(s) /\ DigLeq(s, U16MAX)
IsMajor(s) == IsU16(s) /\ s # ZERO

IsClientId(s) == Len(s) > 0 /\ AllIn(s, Upper \union Lower \union Digit)

IsIdent(s) == Len(s) > 0 /\ s[1] \in IdentLead /\ AllIn(s, IdentChar)

\* A module identifier is the longest run of identifier characters and a number.
ModSplit(s) ==        \* length of the name part
  LET S == {i \in 1..Len(s) : s[i] \notin IdentChar} IN IF S = {} THEN Len(s) ELSE Least(S) - 1
ModName(s) == Upto(s, ModSplit(s))
ModMajor(s) == From(s, ModSplit(s) + 1)
IsModuleId(s) == Len(s) > 0 /\ IsIdent(ModName(s)) /\ IsMajor(ModMajor(s))

\* Parts before and after the first dot; names contain no further dot.
DotPos(s) == Find(s, DOT, 1)
Left(s) == Upto(s, DotPos(s) - 1)
Right(s) == From(s, DotPos(s) + 1)

IsModuleVersion(s) == DotPos(s) # 0 /\ IsModuleId(Left(s)) /\ IsU16(Right(s))
IsScoped(s) == DotPos(s) # 0 /\ IsModuleId(Left(s)) /\ IsIdent(Right(s))

MtWant == B("want")
MtHave == B("have")
MtNope == B("nope")
Eternal == {MtWant, MtHave, MtNope}
IsMessageType(s) == s \in Eternal \/ IsScoped(s)

\* Everything the API reports about a string: each kind of name it is, with its components.
Kinds(s) ==
  (IF IsClientId(s) THEN {<<"cid">>} ELSE {})
  \union (IF IsIdent(s) THEN {<<"ident">>} ELSE {})
  \union (IF IsModuleId(s) THEN {<<"modid", ModName(s), ModMajor(s)>>} ELSE {})
  \union (IF IsModuleVersion(s)
          THEN {<<"modver", Left(s), ModName(Left(s)), ModMajor(Left(s)), Right(s)>>} ELSE {})
  \union (IF IsScoped(s)
          THEN {<<"scoped", Left(s), ModName(Left(s)), ModMajor(Left(s)), Right(s)>>} ELSE {})
  \union (IF IsMessageType(s)
          THEN {<<"mt", CASE s = MtWant -> "want" [] s = MtHave -> "have" [] s = MtNope -> "nope"
                         [] OTHER -> "scoped">>} ELSE {})

(* Lemmas (checked over all strings of the enumerated domain, MCIdent). *)
Disjoint(s) ==
  /\ ~(IsIdent(s) /\ IsModuleId(s))
  /\ ~(IsModuleId(s) /\ (IsModuleVersion(s) \/ IsScoped(s)))
  /\ ~(IsModuleVersion(s) /\ IsScoped(s))
  /\ ~(IsIdent(s) /\ (IsModuleVersion(s) \/ IsScoped(s)))
  /\ (IsScoped(s) \/ IsModuleVersion(s)) => ~IsClientId(s)
Recompose(s) ==
  /\ IsModuleId(s) => s = ModName(s) \o ModMajor(s)
  /\ IsModuleVersion(s) => s = ModName(Left(s)) \o ModMajor(Left(s)) \o <<DOT>> \o Right(s)
  /\ IsScoped(s) => s = ModName(Left(s)) \o ModMajor(Left(s)) \o <<DOT>> \o Right(s)
=============================================================================
