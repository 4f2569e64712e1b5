----------------------------- MODULE ClientIds -----------------------------
(***************************************************************************)
(* Client IDs generated for the job/child hierarchy (vt6/core, client      *)
(* lifetimes).  An index num is given as the pair <<q, r>> with            *)
(* num + 1 = 61 * q + r, 0 <= r < 61; its code is q times `z` followed by  *)
(* digit r of the base-62 alphabet.  Codes are kept run-length encoded so  *)
(* that even index 2^32-1 (a 70 MB string) can be specified.               *)
(***************************************************************************)
EXTENDS Bytes

Alphabet == B("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz")
Z == 122

NumRle(n) == (IF n[1] > 0 THEN <<<<Z, n[1]>>>> ELSE <<>>) \o <<<<Alphabet[n[2] + 1], 1>>>>
NumSize(n) == n[1] + 1

\* A suffix is [k |-> "own"|"local"|"job"|"child", a |-> index, b |-> index].
SuffixRle(s) ==
  CASE s.k = "own"   -> <<>>
    [] s.k = "local" -> <<<<48, 1>>>> \o NumRle(s.a)
    [] s.k = "job"   -> NumRle(s.a)
    [] s.k = "child" -> NumRle(s.a) \o NumRle(s.b)
SuffixSize(s) ==
  CASE s.k = "own"   -> 0
    [] s.k = "local" -> 1 + NumSize(s.a)
    [] s.k = "job"   -> NumSize(s.a)
    [] s.k = "child" -> NumSize(s.a) + NumSize(s.b)

Expand(rle) == FoldLeft(LAMBDA acc, p : acc \o Rep(p[1], p[2]), <<>>, rle)
Encoded(base, s) == base \o Expand(SuffixRle(s))

\* What the hierarchy says about two suffixes of one base, independent of any encoding.
SameIndex(m, n) == m = n
Covers(s, t) ==
  \/ s.k = "own"
  \/ s.k = t.k /\ (s.k \in {"local", "job"} => s.a = t.a)
               /\ (s.k = "child" => s.a = t.a /\ s.b = t.b)
  \/ s.k = "job" /\ t.k = "child" /\ s.a = t.a

(* Lemmas, checked over all pairs of suffixes of the enumerated index set (MCClientIds). *)
Laws(base, s, t) ==
  LET x == Encoded(base, s)
      y == Encoded(base, t)
  IN /\ Len(x) = Len(base) + SuffixSize(s)
     /\ AllIn(x, Upper \union Lower \union Digit)
     /\ HasPrefix(x, base)
     /\ HasPrefix(y, x) <=> Covers(s, t)
=============================================================================
