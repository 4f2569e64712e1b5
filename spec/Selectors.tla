----------------------------- MODULE Selectors -----------------------------
(***************************************************************************)
(* Client selectors: sets of client IDs described by one ID.               *)
(***************************************************************************)
EXTENDS Bytes

AtOrBelow(sel, id) == HasPrefix(id, sel)
StrictlyBelow(sel, id) == HasPrefix(id, sel) /\ id # sel

(* Lemmas (MCSelectors): subtrees are a partial order with strict part. *)
SelectorLaws(a, b, c) ==
  /\ AtOrBelow(a, a) /\ ~StrictlyBelow(a, a)
  /\ AtOrBelow(a, b) <=> (StrictlyBelow(a, b) \/ a = b)
  /\ (AtOrBelow(a, b) /\ AtOrBelow(b, c)) => AtOrBelow(a, c)
  /\ (AtOrBelow(a, b) /\ AtOrBelow(b, a)) => a = b
  /\ (AtOrBelow(a, c) /\ AtOrBelow(b, c)) => (AtOrBelow(a, b) \/ AtOrBelow(b, a))

----------------------------------------------------------------------------
(* The identity of a client: its ID and the screens its standard streams   *)
(* are connected to, built up step by step; a later step overrides.        *)
NoScreen == [set |-> FALSE, v |-> <<>>]
NewIdentity == [stdin |-> NoScreen, stdout |-> NoScreen, stderr |-> NoScreen]
WithScreen(x, role, v) == [x EXCEPT ![role] = [set |-> TRUE, v |-> v]]
BuildIdentity(steps) == FoldLeft(LAMBDA x, st : WithScreen(x, st.r, st.v), NewIdentity, steps)
=============================================================================
