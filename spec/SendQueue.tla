----------------------------- MODULE SendQueue -----------------------------
(***************************************************************************)
(* The send queue of one connection of the tokio dispatch: a list of       *)
(* fixed-size buffers filled by enqueueing, emptied by a transmitter which *)
(* hands back its previous buffer whenever it takes the next one, and is   *)
(* woken by a permit.  Content is abstracted to runs <<tag, n>>: n bytes   *)
(* of the enqueued item number tag.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANT Cap      \* bytes per buffer

Used(b) == FoldLeft(LAMBDA n, r : n + r[2], 0, b)
\* Runs in a normal form: no empty ones, no two neighbours of one tag.
Glue(rs, r) == IF r[2] = 0 THEN rs
               ELSE IF rs # <<>> /\ Last(rs)[1] = r[1] THEN [rs EXCEPT ![Len(rs)][2] = @ + r[2]] ELSE Append(rs, r)
Norm(rs) == FoldLeft(Glue, <<>>, rs)
Flat(bs) == Norm(FoldLeft(LAMBDA acc, b : acc \o b, <<>>, bs))

Filled(bs) == { i \in 1..Len(bs) : bs[i] # <<>> }
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
FreeAt(bs) == LET F == {i \in 1..Len(bs) : bs[i] = <<>>} IN IF F = {} THEN Len(bs) + 1 ELSE MinOf(F)
WithBuf(bs, i) == IF i > Len(bs) THEN Append(bs, <<>>) ELSE bs
\* Room in the last buffer with data
Tail0(bs) == IF Filled(bs) = {} THEN 0 ELSE MaxOf(Filled(bs))
Room(bs) == IF Tail0(bs) = 0 THEN 0 ELSE Cap - Used(bs[Tail0(bs)])

\* A message goes into one buffer as a whole.
PutMsg(bs, tag, n) ==
  IF Tail0(bs) # 0 /\ n <= Room(bs) THEN [bs EXCEPT ![Tail0(bs)] = Append(@, <<tag, n>>)]
  ELSE LET i == FreeAt(bs) IN [WithBuf(bs, i) EXCEPT ![i] = <<<<tag, n>>>>]
\* Standard input is cut wherever buffers end.
RECURSIVE PutFree(_, _, _)
PutFree(bs, tag, n) ==
  IF n = 0 THEN bs
  ELSE LET i == FreeAt(bs)
           k == IF n < Cap THEN n ELSE Cap
       IN PutFree([WithBuf(bs, i) EXCEPT ![i] = <<<<tag, k>>>>], tag, n - k)
PutStdin(bs, tag, n) ==
  IF Tail0(bs) = 0 THEN PutFree(bs, tag, n)
  ELSE LET k == IF n < Room(bs) THEN n ELSE Room(bs)
       IN PutFree(IF k = 0 THEN bs ELSE [bs EXCEPT ![Tail0(bs)] = Append(@, <<tag, k>>)], tag, n - k)

VARIABLES vBufs,   \* the queue
          vHeld,   \* the buffer at the transmitter: <<buffer>> or <<>>
          vPc,     \* transmitter: "idle", "swap", "write"
          vPermit, vWire, vEnq
sqVars == <<vBufs, vHeld, vPc, vPermit, vWire, vEnq>>

SqInit(bs) == vBufs = bs /\ vHeld = <<>> /\ vPc = "idle" /\ vPermit = FALSE /\ vWire = <<>> /\ vEnq = <<>>
Enq(n, msg) ==
  LET tag == Len(vEnq) + 1 IN
  /\ vBufs' = IF msg THEN PutMsg(vBufs, tag, n) ELSE PutStdin(vBufs, tag, n)
  /\ vEnq' = Append(vEnq, <<tag, n>>)
  /\ vPermit' = TRUE
  /\ UNCHANGED <<vHeld, vPc, vWire>>
Wake == vPc = "idle" /\ vPermit /\ vPermit' = FALSE /\ vPc' = "swap" /\ UNCHANGED <<vBufs, vHeld, vWire, vEnq>>
Swap == /\ vPc = "swap"
        /\ LET bs == IF vHeld = <<>> THEN vBufs ELSE Append(vBufs, <<>>) IN
           IF Filled(bs) = {} THEN vBufs' = bs /\ vHeld' = <<>> /\ vPc' = "idle"
           ELSE vBufs' = Tail(bs) /\ vHeld' = <<Head(bs)>> /\ vPc' = "write"
        /\ UNCHANGED <<vPermit, vWire, vEnq>>
Write == /\ vPc = "write"
         /\ vWire' = Norm(vWire \o vHeld[1])
         /\ vPc' = "swap"
         /\ UNCHANGED <<vBufs, vHeld, vPermit, vEnq>>

\* Nothing is lost, duplicated or reordered ...
InOrder == Norm(vWire \o (IF vPc = "write" THEN vHeld[1] ELSE <<>>) \o Flat(vBufs)) = Norm(vEnq)
\* ... no data without a wakeup under way ...
NoneStranded == Filled(vBufs) # {} => vPermit \/ vPc # "idle"
\* ... data is in front, no buffer is overfull, a message is never cut, and buffers are reused.
Delivered == <>[](vWire = Norm(vEnq))
Shape == /\ \A i \in Filled(vBufs) : \A j \in 1..i : j \in Filled(vBufs)
         /\ \A i \in 1..Len(vBufs) : Used(vBufs[i]) <= Cap
         /\ (vPc # "write" /\ vHeld # <<>>) => vPc = "swap"
=============================================================================
