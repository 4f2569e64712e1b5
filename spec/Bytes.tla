------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings: sequences over 0..255.  Everything on the wire, every     *)
(* argument and every identifier is modelled as a byte string.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

Chr(i) == SubSeq(Printable, i, i)
Ord == [c \in {Chr(i) : i \in 1..95} |-> 31 + (CHOOSE i \in 1..95 : Chr(i) = c)]

\* Force TLC to represent a function with domain 1..n as a tuple.
Tup(f, n) == SubSeq(f, 1, n)

\* The byte string of an ASCII literal.
B(str) == Tup([i \in 1..Len(str) |-> Ord[SubSeq(str, i, i)]], Len(str))

From(s, p) == SubSeq(s, p, Len(s))          \* suffix starting at position p
Upto(s, n) == SubSeq(s, 1, n)
Rep(b, n) == Tup([i \in 1..n |-> b], n)     \* n copies of byte b

HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

\* First position >= p holding byte b, or 0.
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
Find(s, b, p) == LET S == {i \in p..Len(s) : s[i] = b} IN IF S = {} THEN 0 ELSE Least(S)

AllIn(s, S) == \A i \in 1..Len(s) : s[i] \in S

Upper == 65..90
Lower == 97..122
Digit == 48..57

Lt(a, b) == a < b
\* Comparison of digit strings without leading zeroes.
DigLeq(a, b) ==
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ \/ a = b
        \/ LET i == CHOOSE k \in 1..Len(a) : a[k] # b[k] /\ \A j \in 1..(k-1) : a[j] = b[j]
           IN a[i] < b[i]

\* Canonical decimal form of a natural number.
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))

\* Value of a digit string (only used for strings that fit a TLC integer).
DecVal(s) == FoldLeft(LAMBDA acc, d : acc * 10 + (d - 48), 0, s)

\* A canonical natural number: no sign, no leading zero.
IsCanonNat(s) == Len(s) > 0 /\ AllIn(s, Digit) /\ (s[1] = 48 => Len(s) = 1)

----------------------------------------------------------------------------
\* UTF-8 well-formedness (Unicode, table 3-7).
\* What may come next: the state is <<continuation bytes still to come, least and greatest next one>>.
Utf8Start(b) ==
  CASE b \in 0..127 -> <<0, 0, 0>>
    [] b \in 194..223 -> <<1, 128, 191>>
    [] b = 224 -> <<2, 160, 191>>
    [] b \in (225..236) \union {238, 239} -> <<2, 128, 191>>
    [] b = 237 -> <<2, 128, 159>>
    [] b = 240 -> <<3, 144, 191>>
    [] b \in 241..243 -> <<3, 128, 191>>
    [] b = 244 -> <<3, 128, 143>>
    [] OTHER -> <<-1, 0, 0>>
Utf8Step(t, b) ==
  CASE t[1] = 0 -> Utf8Start(b)
    [] t[1] > 0 /\ b \in t[2]..t[3] -> <<t[1] - 1, 128, 191>>
    [] OTHER -> <<-1, 0, 0>>

\* Most strings are plain ASCII: decide those at once.
IsUtf8(s) == AllIn(s, 0..127) \/ FoldLeft(Utf8Step, <<0, 0, 0>>, s)[1] = 0
=============================================================================
