-------------------------------- MODULE Wire -------------------------------
(***************************************************************************)
(* Messages on the wire, vt6/foundation section 3.1:                       *)
(*   {<n>|<len>:<bytes>,<len>:<bytes>,...}                                 *)
(* the first of the n bytestrings is the message type.                     *)
(***************************************************************************)
EXTENDS Ident

OPEN == 123    \* {
CLOSE == 125   \* }
BAR == 124     \* |
COLON == 58    \* :
COMMA == 44    \* ,

MaxMsgLen == 1024
MaxUsize == B("18446744073709551615")
Huge == 1000000000      \* stands for every number that exceeds any buffer considered

----------------------------------------------------------------------------
\* Canonical wire form.
Item(s) == Dec(Len(s)) \o <<COLON>> \o s \o <<COMMA>>
Render(ty, args) ==
  <<OPEN>> \o Dec(Len(args) + 1) \o <<BAR>> \o Item(ty)
    \o FlattenSeq([i \in 1..Len(args) |-> Item(args[i])]) \o <<CLOSE>>

\* Rendering into a buffer of cap bytes.
Min2(a, b) == IF a < b THEN a ELSE b
RenderInto(ty, args, cap) ==
  LET w == Render(ty, args)
      room == Min2(cap, MaxMsgLen)
  IN IF Len(w) <= room THEN [ok |-> TRUE, n |-> Len(w), b |-> w]
     ELSE [ok |-> FALSE, n |-> Len(w) - room, b |-> <<>>]

----------------------------------------------------------------------------
\* Parsing.  Positions are 1-based here; reported offsets are 0-based.
Fail(kind, p) == [st |-> "err", kind |-> kind, off |-> p - 1]

\* First position at or after p that does not hold a digit.
RECURSIVE DigitsEnd(_, _)
DigitsEnd(buf, p) == IF p <= Len(buf) /\ buf[p] \in Digit THEN DigitsEnd(buf, p + 1) ELSE p

Decimal(buf, p) ==
  IF p > Len(buf) THEN Fail("UnexpectedEOF", p)
  ELSE LET e == DigitsEnd(buf, p)
           ds == SubSeq(buf, p, e - 1)
       IN CASE e = p -> Fail("ExpectedDecimalNumber", p)
            [] e > p /\ ~IsCanonNat(ds) -> Fail("DecimalNumberHasLeadingZeroes", e)
            [] e > p /\ IsCanonNat(ds) /\ ~DigLeq(ds, MaxUsize) -> Fail("DecimalNumberTooLarge", e)
            [] OTHER -> [st |-> "ok", val |-> IF Len(ds) > 9 THEN Huge ELSE DecVal(ds), pos |-> e]

Expect(buf, p, byte, kind) ==
  IF p > Len(buf) THEN Fail("UnexpectedEOF", p)
  ELSE IF buf[p] # byte THEN Fail(kind, p)
  ELSE [st |-> "ok", pos |-> p + 1]

\* One bytestring.
ParseItem(buf, p) ==
  LET d == Decimal(buf, p) IN
  IF d.st = "err" THEN d ELSE
  LET c == Expect(buf, d.pos, COLON, "ExpectedStringSigil") IN
  IF c.st = "err" THEN c ELSE
  IF d.val > Len(buf) - (c.pos - 1) THEN Fail("UnexpectedEOF", Len(buf) + 1) ELSE
  LET e == c.pos + d.val
      x == Expect(buf, e, COMMA, "ExpectedStringCloser")
  IN IF x.st = "err" THEN x ELSE [st |-> "ok", s |-> SubSeq(buf, c.pos, e - 1), pos |-> x.pos]

\* n bytestrings.  (Each takes at least three bytes, so no more than Len(buf) steps say it all.)
ParseItems(buf, p, n) ==
  FoldLeft(LAMBDA st, i : IF st.st = "err" THEN st
                          ELSE LET it == TLCEval(ParseItem(buf, st.pos)) IN
                               IF it.st = "err" THEN it ELSE [st |-> "ok", items |-> Append(st.items, it.s), pos |-> it.pos],
           [st |-> "ok", items |-> <<>>, pos |-> p], [i \in 1..Min2(n, Len(buf)) |-> i])

Parse1(buf) ==
  LET o == Expect(buf, 1, OPEN, "ExpectedMessageOpener") IN
  IF o.st = "err" THEN o ELSE
  LET n == Decimal(buf, o.pos) IN
  IF n.st = "err" THEN n ELSE
  LET l == Expect(buf, n.pos, BAR, "ExpectedListSigil") IN
  IF l.st = "err" THEN l ELSE
  IF n.val = 0 THEN Fail("ExpectedMessageType", l.pos) ELSE
  LET t == ParseItem(buf, l.pos) IN
  IF t.st = "err" THEN t ELSE
  IF ~IsMessageType(t.s) THEN Fail("InvalidMessageType", t.pos) ELSE
  LET r == ParseItems(buf, t.pos, n.val - 1) IN
  IF r.st = "err" THEN r ELSE
  LET z == Expect(buf, r.pos, CLOSE, "ExpectedMessageCloser") IN
  IF z.st = "err" THEN z ELSE
  [st |-> "ok", ty |-> t.s, args |-> r.items, len |-> z.pos - 1]

\* Uniform result record.
Parse(buf) ==
  LET r == Parse1(buf) IN
  IF r.st = "ok" THEN [st |-> "ok", kind |-> "none", off |-> 0, len |-> r.len, ty |-> r.ty, args |-> r.args]
  ELSE [st |-> "err", kind |-> r.kind, off |-> r.off, len |-> 0, ty |-> <<>>, args |-> <<>>]

Incomplete(r) == r.st = "err" /\ r.kind = "UnexpectedEOF"
Hard(r) == r.st = "err" /\ r.kind # "UnexpectedEOF"

----------------------------------------------------------------------------
(* Lemmas. *)
\* C01: success = the buffer starts with the canonical form of a message of valid type
ParseIsGrammar(buf) ==
  LET r == Parse(buf) IN
  r.st = "ok" => /\ IsMessageType(r.ty)
                 /\ SubSeq(buf, 1, r.len) = Render(r.ty, r.args)
RenderParses(ty, args, junk) ==
  IsMessageType(ty) =>
    LET w == Render(ty, args)
        r == Parse(w \o junk)
    IN r.st = "ok" /\ r.ty = ty /\ r.args = args /\ r.len = Len(w)
\* C02: relation between a buffer and the same buffer without its last byte.  By induction over
\* the length this gives the relation between a buffer and all its prefixes.
StepMonotone(buf) ==
  LET r == Parse(buf)
      q == Parse(Upto(buf, Len(buf) - 1))
  IN Len(buf) > 0 =>
       /\ q.st = "ok" => r = q
       /\ Hard(q) => Hard(r) /\ r.kind = q.kind
       /\ r.st = "ok" => (q.st = "ok" \/ Incomplete(q))

----------------------------------------------------------------------------
\* Human-readable form, vt6/foundation section 3.1.3.
Plain == Upper \union Lower \union Digit \union {DOT, DASH, USCORE}
Hex == B("0123456789abcdef")
BSLASH == 92
Escape(b) ==
  CASE b = 9 -> <<BSLASH, 116>>
    [] b = 10 -> <<BSLASH, 110>>
    [] b = 13 -> <<BSLASH, 114>>
    [] b \in {34, 39, 92} -> <<BSLASH, b>>
    [] b \in (32..126) \ {34, 39, 92} -> <<b>>
    [] OTHER -> <<BSLASH, 120, Hex[(b \div 16) + 1], Hex[(b % 16) + 1]>>
EscapeAll(s) == FlattenSeq([i \in 1..Len(s) |-> Escape(s[i])])
Show(s) == IF Len(s) > 0 /\ AllIn(s, Plain) THEN s ELSE <<34>> \o EscapeAll(s) \o <<34>>
Display(ty, args) ==
  <<40>> \o ty \o FlattenSeq([i \in 1..Len(args) |-> <<32>> \o Show(args[i])]) \o <<41>>

(* C08 lemma: the human-readable form can be read back, so it is injective. *)
UnHex(b) == IF b \in Digit THEN b - 48 ELSE b - 87
RECURSIVE UnQuote(_, _, _)   \* p is just after the opening quote; result [s, pos after closing quote]
UnQuote(d, p, acc) ==
  IF d[p] = 34 THEN [s |-> acc, pos |-> p + 1]
  ELSE IF d[p] # BSLASH THEN UnQuote(d, p + 1, Append(acc, d[p]))
  ELSE CASE d[p+1] = 116 -> UnQuote(d, p + 2, Append(acc, 9))
         [] d[p+1] = 110 -> UnQuote(d, p + 2, Append(acc, 10))
         [] d[p+1] = 114 -> UnQuote(d, p + 2, Append(acc, 13))
         [] d[p+1] = 120 -> UnQuote(d, p + 4, Append(acc, 16 * UnHex(d[p+2]) + UnHex(d[p+3])))
         [] OTHER -> UnQuote(d, p + 2, Append(acc, d[p+1]))
RECURSIVE WordEnd(_, _)
WordEnd(d, p) == IF d[p] \in {32, 41} THEN p ELSE WordEnd(d, p + 1)
RECURSIVE ReadArgs(_, _, _)
ReadArgs(d, p, acc) ==      \* p at a space or the closing parenthesis
  IF d[p] = 41 THEN acc
  ELSE IF d[p+1] = 34 THEN LET q == UnQuote(d, p + 2, <<>>) IN ReadArgs(d, q.pos, Append(acc, q.s))
  ELSE LET e == WordEnd(d, p + 1) IN ReadArgs(d, e, Append(acc, SubSeq(d, p + 1, e - 1)))
DisplayReadable(ty, args) ==
  LET d == Display(ty, args)
      e == WordEnd(d, 2)
  IN /\ AllIn(d, 32..126)
     /\ SubSeq(d, 2, e - 1) = ty
     /\ ReadArgs(d, e, <<>>) = args
=============================================================================
