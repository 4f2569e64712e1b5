------------------------------- MODULE Scalar ------------------------------
(***************************************************************************)
(* Argument values: vt6/core1.0 section 2 basic property types.            *)
(* A value of integer type t is represented by its canonical encoding.     *)
(***************************************************************************)
EXTENDS Bytes

MINUS == 45

UMax == [ u8 |-> B("255"), u16 |-> B("65535"), u32 |-> B("4294967295"),
          u64 |-> B("18446744073709551615"), usize |-> B("18446744073709551615"),
          u128 |-> B("340282366920938463463374607431768211455") ]
IMax == [ i8 |-> B("127"), i16 |-> B("32767"), i32 |-> B("2147483647"),
          i64 |-> B("9223372036854775807"), isize |-> B("9223372036854775807"),
          i128 |-> B("170141183460469231731687303715884105727") ]
\* magnitude of the least value
IMin == [ i8 |-> B("128"), i16 |-> B("32768"), i32 |-> B("2147483648"),
          i64 |-> B("9223372036854775808"), isize |-> B("9223372036854775808"),
          i128 |-> B("170141183460469231731687303715884105728") ]

UTypes == DOMAIN UMax
ITypes == DOMAIN IMax
IntTypes == UTypes \union ITypes

IsInt(t, s) ==
  IF t \in UTypes THEN IsCanonNat(s) /\ DigLeq(s, UMax[t])
  ELSE \/ IsCanonNat(s) /\ DigLeq(s, IMax[t])
       \/ /\ Len(s) > 1 /\ s[1] = MINUS
          /\ LET m == From(s, 2) IN IsCanonNat(m) /\ m # <<48>> /\ DigLeq(m, IMin[t])

IsBool(s) == s = <<116>> \/ s = <<102>>

\* Does decoding s as type t succeed?  (bytes and paths accept everything)
Decodes(t, s) ==
  CASE t \in IntTypes -> IsInt(t, s)
    [] t = "bool" -> IsBool(s)
    [] t = "str" -> IsUtf8(s)
    [] t = "bytes" -> TRUE
    [] t = "path" -> TRUE
    [] t = "opt_u8" -> s = <<>> \/ IsInt("u8", s)
    [] t = "opt_bool" -> s = <<>> \/ IsBool(s)
    [] t = "opt_str" -> IsUtf8(s)
    [] t = "opt_bytes" -> TRUE

\* Is the decoded value "absent"?
Absent(t, s) == t \in {"opt_u8", "opt_bool", "opt_str", "opt_bytes"} /\ s = <<>>

AllTypes == IntTypes \union {"bool", "str", "bytes", "path", "opt_u8", "opt_bool", "opt_str", "opt_bytes"}
=============================================================================
