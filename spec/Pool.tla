-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* What may be observed of a dispatch: connections opening and closing,    *)
(* handlers and broadcast actions running on them, output being enqueued   *)
(* and received, shutdown.  The specification is given as a set-valued     *)
(* step function: Step(S, e) is the set of states in which the dispatch    *)
(* may be after event e if it was in one of the states S before.  A        *)
(* history is allowed iff the set never becomes empty.                     *)
(*                                                                         *)
(* The lock-level model (Dispatch.tla) and recorded runs of the real       *)
(* dispatch (TracePool.tla) are both judged by it.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

None == -1
\* A broadcast under execution: on which connections it has to run (anon: how many more, of unknown ID), on which it has run.
Block(b, f) == [b |-> b, need |-> f.live, anon |-> f.anon, seen |-> {}]

\* anon: open connections whose ID has not been seen yet; live: the other open ones; down: set to
\* teardown by the application, not closed yet; gone: closed.
\* hup: connections whose client ended them; hups: number of ended ones that are still open or about
\* to be closed, but which cannot be told (they are not among those that identified themselves, but
\* among may, if their ID is known at all); taken: the members of may that are accounted for.
\* reg: broadcasts whose registration has begun; q: broadcasts waiting; cur: the broadcasts under
\* execution (the next one may begin on a connection that is through with the previous ones); hand: the connection whose handler is running; out: what was enqueued.
New == [anon |-> 0, live |-> {}, down |-> {}, gone |-> {}, hup |-> {}, hups |-> 0, may |-> {}, taken |-> {}, reg |-> {}, q |-> <<>>, cur |-> <<>>,
        hand |-> None, shut |-> FALSE, stopped |-> FALSE, out |-> <<>>]

Idle(s) == \A i \in DOMAIN s.cur : s.cur[i].need \subseteq s.cur[i].seen /\ s.cur[i].anon = 0
\* No broadcast is half done.
Finish(s) == IF Idle(s) THEN {[s EXCEPT !.cur = <<>>]} ELSE {}

\* Unobserved steps: a registration takes effect; a broadcast is executed on no connection at all.
Internal(s) ==
  { [s EXCEPT !.reg = @ \ {b}, !.q = Append(@, b)] : b \in s.reg }
  \union (IF s.q # <<>> /\ s.live = {} /\ s.anon = 0 /\ Idle(s) THEN {[s EXCEPT !.q = Tail(@), !.cur = <<>>]} ELSE {})
RECURSIVE Closure(_)
Closure(S) == LET N == S \union UNION {Internal(s) : s \in S} IN IF N = S THEN S ELSE Closure(N)

Queue(s, c) == IF c \in DOMAIN s.out THEN s.out[c] ELSE <<>>

\* Connection c is known from now on.
Known(s, c) ==
  IF c \in s.live THEN {s}
  ELSE IF c \notin s.down \union s.gone /\ s.anon > 0
       THEN {[s EXCEPT !.anon = @ - 1, !.live = @ \union {c}, !.cur = [i \in DOMAIN @ |-> [@[i] EXCEPT !.anon = @ - 1, !.need = @ \union {c}]]]}
  ELSE {}

\* A broadcast action runs on one connection, which is through with the previous ones.
ExecOn(s, i, c) ==
  { [t EXCEPT !.cur[i].seen = @ \union {c}] :
      t \in {x \in IF c \in s.down THEN {s} ELSE Known(s, c) : c \notin x.cur[i].seen /\ \A j \in 1..(i - 1) : c \in x.cur[j].need => c \in x.cur[j].seen} }
Start(s, b) ==
  IF s.q # <<>> /\ Head(s.q) = b /\ s.hand = None
  THEN {[s EXCEPT !.q = Tail(@), !.cur = Append(SelectSeq(@, LAMBDA k : k.anon > 0 \/ ~(s.live \union s.down \subseteq k.seen)), Block(b, s))]}
  ELSE {}
Exec(s, b, c) ==
  LET is == {i \in DOMAIN s.cur : s.cur[i].b = b} IN
  IF is # {} THEN UNION {ExecOn(s, i, c) : i \in is} ELSE UNION {ExecOn(t, Len(t.cur), c) : t \in Start(s, b)}

Closing(f) ==
  { [f EXCEPT !.down = @ \ {c}, !.gone = @ \union {c}] : c \in f.down }
  \union { [f EXCEPT !.live = @ \ {c}, !.hup = @ \ {c}, !.gone = @ \union {c}] : c \in IF f.shut THEN f.live ELSE f.live \intersect f.hup }
  \union (IF f.hups > 0 THEN { [f EXCEPT !.hups = @ - 1, !.taken = @ \union {c}, !.live = @ \ {c}, !.gone = @ \union {c}] : c \in (f.live \intersect f.may) \ f.taken }
                             \union (IF f.anon > 0 THEN {[f EXCEPT !.hups = @ - 1, !.anon = @ - 1]} ELSE {})
          ELSE {})
  \union (IF f.shut /\ f.anon > 0 THEN {[f EXCEPT !.anon = @ - 1]} ELSE {})

One(s, e) ==
  CASE e.k = "open" -> IF s.stopped THEN {} ELSE { [f EXCEPT !.anon = @ + 1] : f \in Finish(s) }
    [] e.k = "closed" -> UNION { Closing(f) : f \in Finish(s) }
    \* a handler runs on a connection that is open, and nothing else runs meanwhile
    [] e.k = "hS" -> UNION { { [t EXCEPT !.hand = e.c] : t \in Known(f, e.c) } : f \in {x \in Finish(s) : x.hand = None} }
    [] e.k = "hE" -> IF s.hand = e.c THEN {[s EXCEPT !.hand = None]} ELSE {}
    \* the application tears down a connection
    [] e.k = "down" -> IF e.c \in s.live
                       THEN LET d == [s EXCEPT !.live = @ \ {e.c}, !.down = @ \union {e.c}, !.hup = @ \ {e.c},
                                         \* broadcasts that have not come to it need not run on it any more
                                         !.cur = [i \in DOMAIN @ |-> IF e.c \in @[i].seen THEN @[i] ELSE [@[i] EXCEPT !.need = @ \ {e.c}]]] IN
                            {d} \union (IF s.hups > 0 /\ e.c \in s.may \ s.taken THEN {[d EXCEPT !.hups = @ - 1, !.taken = @ \union {e.c}]} ELSE {})
                       ELSE IF e.c \in s.down THEN {s} ELSE {}
    [] e.k = "enq" -> IF e.c \in s.live THEN {[s EXCEPT !.out = (e.c :> Append(Queue(s, e.c), e.v)) @@ @]} ELSE {}
    [] e.k = "regS" -> {[s EXCEPT !.reg = @ \union {e.b}]}
    [] e.k = "regE" -> IF e.b \in s.reg THEN {} ELSE {s}
    [] e.k = "exec" -> Exec(s, e.b, e.c)
    \* the client ends the connection (e.c is None if it is not known which one it is, e.may has the
    \* known IDs of connections that did not identify themselves)
    [] e.k = "hup" -> IF e.c = None THEN LET t == [s EXCEPT !.may = ToSet(e.may)] IN
                                         {[t EXCEPT !.hups = @ + 1]} \union { [t EXCEPT !.taken = @ \union {c}] : c \in (t.may \intersect (t.down \union t.gone)) \ t.taken }
                      ELSE IF e.c \in s.gone THEN {s} ELSE {[s EXCEPT !.hup = @ \union {e.c}]}
    [] e.k = "shut" -> {[s EXCEPT !.shut = TRUE]}
    \* the listener has returned: all connections are dismantled
    [] e.k = "stopped" -> { [f EXCEPT !.stopped = TRUE] : f \in {x \in Finish(s) : x.shut /\ e.ok /\ ~e.sock /\ x.live = {} /\ x.down = {} /\ x.anon = 0} }
    \* When nothing happens any more: every broadcast has been executed ...
    [] e.k = "quietb" -> { f \in Finish(s) : f.reg = {} /\ f.q = <<>> }
    \* ... every ended connection is closed, and clients see the end of just those connections ...
    [] e.k = "quietc" -> { f \in Finish(s) : f.down = {} /\ f.hup \intersect f.live = {} /\ (f.shut \/ f.hups = 0)
                                           /\ e.open = f.anon + Cardinality(f.live) }
    \* ... the listener has returned if it was told to
    [] e.k = "quiets" -> IF s.shut => s.stopped THEN {s} ELSE {}
    \* ... and a new server can be started in its place (what it does is another history),
    [] e.k = "again" -> IF s.stopped /\ e.ok THEN {s} ELSE {}
    \* ... and clients have received what was enqueued (or the beginning of it, if they are gone).
    [] e.k = "recv" -> IF e.c \in s.live THEN (IF e.v = Queue(s, e.c) THEN {s} ELSE {})
                       ELSE IF IsPrefix(e.v, Queue(s, e.c)) THEN {s} ELSE {}
    [] OTHER -> {}

Step(S, e) == Closure(UNION { One(s, e) : s \in S })
Steps(S, es) == FoldLeft(Step, S, es)
=============================================================================
