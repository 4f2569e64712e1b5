------------------------------ MODULE Secrets ------------------------------
(***************************************************************************)
(* Secrets.  Issuing one takes 24 fresh bytes of randomness; the secret is *)
(* their URL-safe base64 form.  The issuer never takes the same bytes      *)
(* twice (probability 2^-192), so all secrets ever issued are distinct.    *)
(***************************************************************************)
EXTENDS Messages, Bitwise

Base64Url == B("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_")
SecretLen == 32
Alphabet == {Base64Url[i] : i \in 1..64}
\* value of the character with byte value b, at b + 1
Val64 == [c \in 1..256 |-> IF (c - 1) \in Alphabet THEN (CHOOSE i \in 1..64 : Base64Url[i] = c - 1) - 1 ELSE 0]

\* Encoding of a byte string whose length is a multiple of three.
RECURSIVE Encode64(_)
Encode64(b) ==
  IF b = <<>> THEN <<>>
  ELSE LET v == b[1] * 65536 + b[2] * 256 + b[3]
       IN <<Base64Url[(v \div 262144) + 1], Base64Url[((v \div 4096) % 64) + 1], Base64Url[((v \div 64) % 64) + 1], Base64Url[(v % 64) + 1]>> \o Encode64(From(b, 4))

WellFormed(s) == Len(s) = SecretLen /\ AllIn(s, Alphabet)
\* A secret can be carried in each of the hello messages and comes out unchanged.
Carried(s) == \A n \in {"client_hello", "stdin_hello", "stdout_hello", "client_new"} : TypedRoundTrip(n, <<s>>) /\ FieldOk("str", s)

----------------------------------------------------------------------------
(* What a finite history of issued secrets shows.  Four characters are     *)
(* three bytes, written as one number below 2^24 (a word).                  *)
WordBits == 24
Pow2 == [k \in 1..25 |-> 2 ^ (k - 1)]
Pack(s) == [i \in 1..(Len(s) \div 4) |-> LET v(j) == Val64[s[4 * (i - 1) + j] + 1] IN v(1) * 262144 + v(2) * 4096 + v(3) * 64 + v(4)]
\* bit k (from 0) of a word
Bit(w, k) == (w \div Pow2[k + 1]) % 2
Plus(x, y) == TLCEval([i \in 1..Len(x) |-> x[i] ^^ y[i]])
RECURSIVE TopBit(_, _)
TopBit(w, k) == IF w >= Pow2[k + 1] THEN k ELSE TopBit(w, k - 1)

\* Gaussian elimination over GF(2).  basis[p] is <<>> or a vector whose first set bit has number p.
RECURSIVE Reduce(_, _, _)
Reduce(basis, v, j) ==
  IF j > Len(v) THEN <<0, v>>
  ELSE IF v[j] = 0 THEN Reduce(basis, v, j + 1)
  ELSE LET p == WordBits * j - TopBit(v[j], WordBits - 1)
       IN IF basis[p] = <<>> THEN <<p, v>> ELSE Reduce(basis, Plus(v, basis[p]), j)
Extend(basis, v) == LET r == TLCEval(Reduce(basis, v, 1)) IN IF r[1] = 0 THEN basis ELSE TLCEval([basis EXCEPT ![r[1]] = r[2]])
Rank(vs, words) == LET b == FoldLeft(Extend, [p \in 1..(WordBits * words) |-> <<>>], vs) IN Cardinality({p \in 1..(WordBits * words) : b[p] # <<>>})
\* No affine relation holds between the bits of all of vs (sequences of words): in particular
\* every bit takes both values, and no bit is a copy or a parity of others.  For random vectors it
\* fails with probability below 2^-(Len(vs) - 1 - bits).
Independent(vs, words) == Rank(TLCEval([i \in 1..(Len(vs) - 1) |-> Plus(vs[i + 1], vs[1])]), words) = WordBits * words
\* Every bit is set in about half of them (each bound is exceeded with probability below 1e-11).
Balanced(vs, words) ==
  LET N == Len(vs) IN
  \A j \in 1..words, k \in 0..(WordBits - 1) :
    LET c == FoldLeft(LAMBDA a, v : a + Bit(v[j], k), 0, vs) IN (2 * c - N) * (2 * c - N) <= 52 * N
=============================================================================
