------------------------------- MODULE Oracle ------------------------------
(***************************************************************************)
(* Evaluates the specification on a file of cases (one JSON record each)   *)
(* and prints what the implementation must do.  The lemmas of the data     *)
(* layer are checked on every case on the way.                             *)
(***************************************************************************)
EXTENDS Messages, ClientIds, Selectors, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES vIdx, vDone

Summary(r) == [st |-> r.st, kind |-> r.kind, off |-> r.off, len |-> r.len]

ParseCase(c) ==
  LET r == Parse(c.buf) IN
  [ r |-> r,
    disp |-> IF r.st = "ok" THEN Display(r.ty, r.args) ELSE <<>>,
    dec |-> IF r.st = "ok" THEN DecodesAs(r.ty, r.args) ELSE {},
    have |-> IF r.st = "ok" /\ Len(r.args) = 1 THEN HaveVariant(r.args[1]) ELSE "none" ]
ParseLaws(c) ==
  LET r == Parse(c.buf) IN
  /\ ParseIsGrammar(c.buf)
  /\ StepMonotone(c.buf)
  /\ r.st = "ok" => /\ DisplayReadable(r.ty, r.args)
                    /\ RenderParses(r.ty, r.args, B("{x"))
                    /\ Cardinality(DecodesAs(r.ty, r.args)) <= 1

PrefixCase(c) == IF "at" \in DOMAIN c THEN [rs |-> [i \in 1..Len(c.at) |-> Summary(Parse(Upto(c.buf, c.at[i])))]] ELSE [rs |-> [i \in 1..(Len(c.buf) + 1) |-> Summary(Parse(Upto(c.buf, i - 1)))]]

RenderCase(c) ==
  [ wire |-> Render(c.ty, c.args),
    caps |-> [i \in 1..Len(c.caps) |-> LET r == RenderInto(c.ty, c.args, c.caps[i]) IN [ok |-> r.ok, n |-> r.n]],
    disp |-> Display(c.ty, c.args) ]
RenderLaws(c) == RenderParses(c.ty, c.args, <<>>)

ArgCase(c) == ArgAnswer(c.s)
ArgLaws(c) ==
  /\ Disjoint(c.s) /\ Recompose(c.s)
  \* integer types nest
  /\ IsInt("u8", c.s) => IsInt("u16", c.s) /\ IsInt("i16", c.s)
  /\ IsInt("u16", c.s) => IsInt("u32", c.s) /\ IsInt("i32", c.s)
  /\ IsInt("u32", c.s) => IsInt("u64", c.s) /\ IsInt("i64", c.s)
  /\ IsInt("u64", c.s) => IsInt("u128", c.s) /\ IsInt("i128", c.s)
  /\ IsInt("i8", c.s) => IsInt("i16", c.s)
  /\ IsInt("i16", c.s) => IsInt("i32", c.s)
  /\ IsInt("i32", c.s) => IsInt("i64", c.s)
  /\ IsInt("i64", c.s) => IsInt("i128", c.s)

FieldsOk(c) == \A i \in 1..Len(c.fields) : FieldOk(MsgTypes[c.name].fields[i], c.fields[i])
TencCase(c) ==
  [ valid |-> FieldsOk(c),
    wire |-> EncodeTyped(c.name, c.fields),
    caps |-> [i \in 1..Len(c.caps) |-> LET r == EncodeTypedInto(c.name, c.fields, c.caps[i]) IN [ok |-> r.ok, n |-> r.n]] ]
TencLaws(c) == TypedRoundTrip(c.name, c.fields)

CidCase(c) == [rle |-> SuffixRle(c), size |-> SuffixSize(c)]

RelCase(c) ==
  LET e == [i \in 1..Len(c.ids) |-> Encoded(c.ids[i].base, c.ids[i])]
  IN [ strs |-> e,
       pre |-> [i \in 1..Len(e) |-> [j \in 1..Len(e) |-> HasPrefix(e[j], e[i])]],
       covers |-> [i \in 1..Len(e) |-> [j \in 1..Len(e) |->
                     IF c.ids[i].base = c.ids[j].base THEN Covers(c.ids[i], c.ids[j]) ELSE HasPrefix(e[j], e[i])]] ]
RelLaws(c) == \A i, j \in 1..Len(c.ids) : c.ids[i].base = c.ids[j].base => Laws(c.ids[i].base, c.ids[i], c.ids[j])

SelCase(c) ==
  [ at |-> [i \in 1..Len(c.ids) |-> [j \in 1..Len(c.ids) |-> AtOrBelow(c.ids[i], c.ids[j])]],
    st |-> [i \in 1..Len(c.ids) |-> [j \in 1..Len(c.ids) |-> StrictlyBelow(c.ids[i], c.ids[j])]] ]
SelLaws(c) == \A i, j, k \in 1..Len(c.ids) : SelectorLaws(c.ids[i], c.ids[j], c.ids[k])

Answer(c) ==
  CASE c.op = "parse" -> ParseCase(c)
    [] c.op = "prefixes" -> PrefixCase(c)
    [] c.op = "render" -> RenderCase(c)
    [] c.op = "arg" -> ArgCase(c)
    [] c.op = "tenc" -> TencCase(c)
    [] c.op = "cid" -> CidCase(c)
    [] c.op = "rel" -> RelCase(c)
    [] c.op = "sel" -> SelCase(c)
    [] c.op = "identity" -> BuildIdentity(c.steps)

LawsHold(c) ==
  IF "big" \in DOMAIN c THEN TRUE ELSE
  CASE c.op = "parse" -> ParseLaws(c)
    [] c.op = "render" -> RenderLaws(c)
    [] c.op = "arg" -> ArgLaws(c)
    [] c.op = "tenc" -> TencLaws(c)
    [] c.op = "rel" -> RelLaws(c)
    [] c.op = "sel" -> SelLaws(c)
    [] OTHER -> TRUE

Init == vIdx \in 1..Len(Cases) /\ vDone = FALSE
Next == /\ ~vDone
        /\ PrintT("@@" \o ToString(vIdx) \o " " \o ToJson(Answer(Cases[vIdx])))
        /\ Assert(LawsHold(Cases[vIdx]), <<"lemma fails on case", vIdx>>)
        /\ vDone' = TRUE
        /\ UNCHANGED vIdx
Spec == Init /\ [][Next]_<<vIdx, vDone>>
=============================================================================
