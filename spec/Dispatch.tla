------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* The tokio dispatch at the granularity of lock operations and await      *)
(* points: accept loop, one receiver and one transmitter job per           *)
(* connection, other threads registering broadcasts, a shutdown request.   *)
(* Every observable event updates vObs, the set of states of Pool.tla that *)
(* explain the history; it must never become empty, and when no process    *)
(* can do anything any more the system must be quiet in the sense of Pool. *)
(* (All behaviours of this model are finite, so that is liveness.)         *)
(***************************************************************************)
EXTENDS Pool

CONSTANTS NC,        \* number of clients
          Inputs,    \* Inputs[c]: sequence of inputs of client c: "echo", "bc", "quit", "hup"
          Regs,      \* Regs[i]: sequence of broadcasts registered by thread i
          Kind,      \* Kind[b]: <<"note">>, <<"kill", c>>, <<"nest", b2>>, <<"nop">>
          OnClose,   \* broadcast registered by the closed notification of connection 1, or None
          Shutdown,  \* whether shutdown is requested (at any time)
          Bug        \* "none", or the name of a defect to plant in the model

Conns == 1..NC
Threads == 1..Len(Regs)

VARIABLES vPc,      \* process -> control state
          vRet,     \* process -> where to go after the drain subroutine
          vTodo,    \* process -> broadcasts taken from the queue
          vRan,     \* process -> whether do_maintenance has run broadcasts
          vLock,    \* holder of the pool lock, or None
          vPool,    \* conn -> "no", "live", "down", "gone"
          vTx,      \* conns having an entry in the tx map
          vBufs,    \* conn -> values in send buffers
          vJob,     \* conn -> values held by the transmitter job
          vPermit,  \* conn -> a stored notification
          vIn,      \* conn -> inputs not received yet
          vRecv,    \* conn -> values received by the client
          vRxAb, vTxAb,  \* aborted jobs
          vBcq,     \* the broadcast queue
          vReg,     \* thread -> position in Regs
          vNext,    \* next connection to be accepted
          vAbort,   \* shutdown was requested
          vObs

vars == <<vPc, vRet, vTodo, vRan, vLock, vPool, vTx, vBufs, vJob, vPermit, vIn, vRecv, vRxAb, vTxAb, vBcq, vReg, vNext, vAbort, vObs>>

Free == <<"-", 0>>
A == <<"A", 0>>
S == <<"S", 0>>
R(c) == <<"R", c>>
T(c) == <<"T", c>>
X(i) == <<"X", i>>
Procs == {A, S} \union {R(c) : c \in Conns} \union {T(c) : c \in Conns} \union {X(i) : i \in Threads}

Ev(k) == [k |-> k]
EvC(k, c) == [k |-> k, c |-> c]
EvB(k, b) == [k |-> k, b |-> b]

Init ==
  /\ vPc = [p \in Procs |-> CASE p[1] = "A" -> "a1" [] p[1] = "S" -> "s0" [] p[1] = "X" -> "x1" [] OTHER -> "unborn"]
  /\ vRet = [p \in Procs |-> "end"] /\ vTodo = [p \in Procs |-> <<>>] /\ vRan = [p \in Procs |-> FALSE]
  /\ vLock = Free /\ vPool = [c \in Conns |-> "no"] /\ vTx = {} /\ vBufs = [c \in Conns |-> <<>>] /\ vJob = [c \in Conns |-> <<>>]
  /\ vPermit = [c \in Conns |-> FALSE] /\ vIn = Inputs /\ vRecv = [c \in Conns |-> <<>>]
  /\ vRxAb = [c \in Conns |-> FALSE] /\ vTxAb = [c \in Conns |-> FALSE]
  /\ vBcq = <<>> /\ vReg = [i \in Threads |-> 1] /\ vNext = 1 /\ vAbort = FALSE
  /\ vObs = {New}

Goto(p, l) == vPc' = [vPc EXCEPT ![p] = l]
See(es) == vObs' = Steps(vObs, es)

----------------------------------------------------------------------------
\* The part of the state that code holding the pool lock works on, as a record.
W == [pool |-> vPool, tx |-> vTx, bufs |-> vBufs, permit |-> vPermit, rxab |-> vRxAb, txab |-> vTxAb, bcq |-> vBcq, ev |-> <<>>]
Put(w) == /\ vPool' = w.pool /\ vTx' = w.tx /\ vBufs' = w.bufs /\ vPermit' = w.permit /\ vRxAb' = w.rxab /\ vTxAb' = w.txab
          /\ vBcq' = w.bcq /\ See(w.ev)
Emit(w, e) == [w EXCEPT !.ev = Append(@, e)]

\* a waiting transmitter is one at t1
Notify(w, c) == IF Bug = "lostwake" /\ vPc[T(c)] # "t1" THEN w ELSE [w EXCEPT !.permit[c] = TRUE]
Enqueue(w, c, v) ==
  LET w1 == Emit(w, [k |-> "enq", c |-> c, v |-> v])
  IN IF c \in w.tx THEN Notify([w1 EXCEPT !.bufs[c] = Append(@, v)], c) ELSE w1

\* Registering while holding the pool lock: the action just stays in the queue.
Register(w, b) == Emit(Emit([w EXCEPT !.bcq = Append(@, b)], EvB("regS", b)), EvB("regE", b))

\* One action on one connection.
Act(w, b, c) ==
  LET w1 == Emit(w, [k |-> "exec", b |-> b, c |-> c]) IN
  CASE Kind[b][1] = "note" -> IF w.pool[c] = "live" THEN Enqueue(w1, c, b) ELSE w1
    [] Kind[b][1] = "kill" -> IF Kind[b][2] = c THEN Emit([w1 EXCEPT !.pool[c] = "down"], EvC("down", c)) ELSE w1
    [] Kind[b][1] = "nest" -> IF \A i \in 1..Len(w.ev) : w.ev[i].k # "exec" THEN Register(w1, Kind[b][2]) ELSE w1
    [] OTHER -> w1
InPool(w) == {c \in Conns : w.pool[c] \in {"live", "down"}}
Ordered(C) == SetToSortSeq(C, <)
RunBroadcast(w, b) == FoldLeft(LAMBDA x, c : Act(x, b, c), w, Ordered(InPool(w)))

\* do_maintenance_on_conn
Maintain(w, c) ==
  IF w.pool[c] # "down" THEN w ELSE
  LET w1 == Emit([w EXCEPT !.pool[c] = "gone", !.tx = @ \ {c}, !.rxab[c] = TRUE, !.txab[c] = TRUE], Ev("closed"))
  IN IF c = 1 /\ OnClose # None THEN Register(w1, OnClose) ELSE w1
MaintainAll(w) == FoldLeft(Maintain, w, Ordered(InPool(w)))

\* A handler.
Handle(w, c, input) ==
  LET w1 == Emit(w, EvC("hS", c))
      w2 == CASE input = "echo" -> Enqueue(w1, c, 0)
              [] input = "bc" -> Register(w1, 100 + c)
              [] input = "quit" -> Emit([w1 EXCEPT !.pool[c] = "down"], EvC("down", c))
  IN Emit(w2, EvC("hE", c))

----------------------------------------------------------------------------
\* The drain subroutine.  Entered at p1 without the lock, or at d1 holding it.
Acquire(p, from, to) == vPc[p] = from /\ vLock = Free /\ vLock' = p /\ Goto(p, to)
UnchangedW == UNCHANGED <<vPool, vTx, vBufs, vPermit, vRxAb, vTxAb, vBcq, vObs>>

P1(p) == /\ vPc[p] = "p1"
         /\ IF vBcq = <<>> THEN Goto(p, vRet[p]) ELSE Goto(p, "p2")
         /\ UNCHANGED vLock
P2(p) == /\ vPc[p] = "p2"
         /\ IF vLock = Free THEN vLock' = p /\ Goto(p, "d1") ELSE UNCHANGED vLock /\ Goto(p, vRet[p])
D1(p) == /\ vPc[p] = "d1"
         /\ vTodo' = [vTodo EXCEPT ![p] = vBcq]
         /\ vBcq' = <<>>
         /\ IF vBcq = <<>> THEN Goto(p, "d3") ELSE Goto(p, "d2")
         /\ UNCHANGED <<vPool, vTx, vBufs, vPermit, vRxAb, vTxAb, vObs>>
D2(p) == /\ vPc[p] = "d2"
         /\ LET bug == Bug = "lifo"
                b == IF bug THEN Last(vTodo[p]) ELSE Head(vTodo[p])
                rest == IF bug THEN Front(vTodo[p]) ELSE Tail(vTodo[p])
            IN /\ Put(RunBroadcast(W, b))
               /\ vTodo' = [vTodo EXCEPT ![p] = rest]
               /\ Goto(p, IF rest = <<>> THEN "d1" ELSE "d2")
         /\ vRan' = [vRan EXCEPT ![p] = TRUE]
D3(p) == /\ vPc[p] = "d3"
         /\ IF vRan[p] THEN Put(MaintainAll(W)) ELSE UnchangedW
         /\ vRan' = [vRan EXCEPT ![p] = FALSE]
         /\ vLock' = Free
         /\ Goto(p, IF Bug = "stranded" THEN vRet[p] ELSE "p1")
Drain(p) ==
  /\ \/ P1(p) /\ UnchangedW /\ UNCHANGED <<vTodo, vRan>>
     \/ P2(p) /\ UnchangedW /\ UNCHANGED <<vTodo, vRan>>
     \/ D1(p) /\ UNCHANGED <<vLock, vRan>>
     \/ D2(p) /\ UNCHANGED vLock
     \/ D3(p) /\ UNCHANGED vTodo
  /\ UNCHANGED <<vRet, vJob, vIn, vRecv, vReg, vNext, vAbort>>
Enter(p, l, ret) == vPc' = [vPc EXCEPT ![p] = l] /\ vRet' = [vRet EXCEPT ![p] = ret]

----------------------------------------------------------------------------
\* The accept loop.
AUnch == UNCHANGED <<vTodo, vRan, vJob, vIn, vRecv, vReg>>
Accept ==
  /\ AUnch
  /\ \/ /\ vPc[A] = "a1" /\ vNext <= NC /\ Goto(A, "a2") /\ UNCHANGED <<vLock, vNext, vAbort, vRet>> /\ UnchangedW
     \/ /\ Acquire(A, "a2", "a3") /\ UNCHANGED <<vNext, vAbort, vRet>> /\ UnchangedW
     \/ \* create_connection_object
        /\ vPc[A] = "a3"
        /\ LET c == vNext
               w1 == [W EXCEPT !.pool[c] = "live", !.tx = IF Bug = "txlate" THEN @ ELSE @ \union {c}]
           IN Put(IF Bug = "openlate" THEN w1 ELSE Emit(w1, Ev("open")))
        /\ vLock' = Free /\ Enter(A, "p1", "a4") /\ UNCHANGED <<vNext, vAbort>>
     \/ \* spawn jobs
        /\ vPc[A] = "a4"
        /\ vPc' = [vPc EXCEPT ![A] = "a1", ![R(vNext)] = "r1", ![T(vNext)] = "t1"]
        /\ LET w1 == [W EXCEPT !.tx = IF Bug = "txlate" THEN @ \union {vNext} ELSE @]
           IN Put(IF Bug = "openlate" THEN Emit(w1, Ev("open")) ELSE w1)
        /\ vNext' = vNext + 1
        /\ UNCHANGED <<vLock, vRet, vAbort>>
     \/ \* aborted
        /\ vPc[A] = "a1" /\ vAbort /\ Goto(A, "s1") /\ UNCHANGED <<vLock, vNext, vAbort, vRet>> /\ UnchangedW
     \/ /\ Acquire(A, "s1", "s2") /\ UNCHANGED <<vNext, vAbort, vRet>> /\ UnchangedW
     \/ /\ vPc[A] = "s2"
        /\ IF Bug = "shutleak" THEN UnchangedW
           ELSE Put(MaintainAll([W EXCEPT !.pool = [c \in Conns |-> IF @[c] = "live" THEN "down" ELSE @[c]]]))
        /\ vLock' = Free /\ Enter(A, "p1", "s3") /\ UNCHANGED <<vNext, vAbort>>
     \/ /\ vPc[A] = "s3" /\ Goto(A, "end") /\ See(<<[k |-> "stopped", ok |-> TRUE, sock |-> FALSE]>>)
        /\ UNCHANGED <<vLock, vNext, vAbort, vRet, vPool, vTx, vBufs, vPermit, vRxAb, vTxAb, vBcq>>

\* Requesting shutdown.
Request ==
  /\ Shutdown /\ vPc[S] = "s0" /\ Goto(S, "end") /\ vAbort' = TRUE /\ See(<<Ev("shut")>>)
  /\ UNCHANGED <<vRet, vTodo, vRan, vLock, vPool, vTx, vBufs, vJob, vPermit, vIn, vRecv, vRxAb, vTxAb, vBcq, vReg, vNext>>

\* Receiver job.
Receive(c) ==
  /\ UNCHANGED <<vTodo, vRan, vJob, vRecv, vReg, vNext, vAbort>>
  /\ \/ \* wait for input
        /\ vPc[R(c)] = "r1" /\ vIn[c] # <<>> /\ UNCHANGED <<vLock, vRet, vIn>>
        /\ IF Head(vIn[c]) = "hup"
           THEN Goto(R(c), "r4") /\ See(<<EvC("hup", c)>>) /\ UNCHANGED <<vPool, vTx, vBufs, vPermit, vRxAb, vTxAb, vBcq>>
           ELSE Goto(R(c), "r2") /\ UnchangedW
     \/ \* aborted while waiting
        /\ vPc[R(c)] = "r1" /\ vRxAb[c] /\ Goto(R(c), "end") /\ UNCHANGED <<vLock, vRet, vIn>> /\ UnchangedW
     \/ /\ Acquire(R(c), "r2", "r3") /\ UNCHANGED <<vRet, vIn>> /\ UnchangedW
     \/ /\ vPc[R(c)] = "r3"
        /\ Put(IF vPool[c] = "live" THEN Maintain(Handle(W, c, Head(vIn[c])), c) ELSE W)
        /\ vIn' = [vIn EXCEPT ![c] = Tail(@)]
        /\ Enter(R(c), "d1", "r1") /\ UNCHANGED vLock
     \/ /\ Acquire(R(c), "r4", "r5") /\ UNCHANGED <<vRet, vIn>> /\ UnchangedW
     \/ \* end of input
        /\ vPc[R(c)] = "r5"
        /\ Put(IF vPool[c] = "live" THEN Maintain([W EXCEPT !.pool[c] = "down"], c) ELSE W)
        /\ vIn' = [vIn EXCEPT ![c] = <<>>]
        /\ Enter(R(c), "d1", "end") /\ UNCHANGED vLock

\* Transmitter job.
Transmit(c) ==
  /\ UNCHANGED <<vTodo, vRan, vIn, vReg, vNext, vAbort>>
  /\ \/ /\ vPc[T(c)] = "t1" /\ vPermit[c] /\ Goto(T(c), "t2")
        /\ vPermit' = [vPermit EXCEPT ![c] = FALSE]
        /\ UNCHANGED <<vLock, vRet, vJob, vRecv, vPool, vTx, vBufs, vRxAb, vTxAb, vBcq, vObs>>
     \/ /\ vPc[T(c)] \in {"t1", "t4"} /\ vTxAb[c] /\ Goto(T(c), "end") /\ UNCHANGED <<vLock, vRet, vJob, vRecv>> /\ UnchangedW
     \/ /\ Acquire(T(c), "t2", "t3") /\ UNCHANGED <<vRet, vJob, vRecv>> /\ UnchangedW
     \/ \* swap_send_buffer
        /\ vPc[T(c)] = "t3" /\ UNCHANGED <<vLock, vRecv>>
        /\ IF vPool[c] # "live" \/ c \notin vTx
           THEN Enter(T(c), "d1", "end") /\ UNCHANGED vJob /\ Put(Maintain(W, c))
           ELSE LET k == IF Len(vBufs[c]) >= 2 THEN 2 ELSE Len(vBufs[c]) IN   \* a buffer holds up to two values
                /\ vJob' = [vJob EXCEPT ![c] = SubSeq(vBufs[c], 1, k)]
                /\ Put([W EXCEPT !.bufs[c] = SubSeq(@, k + 1, Len(@))])
                /\ Enter(T(c), "d1", IF k = 0 THEN "t1" ELSE "t4")
     \/ \* write to the socket
        /\ vPc[T(c)] = "t4" /\ Goto(T(c), "t2") /\ UNCHANGED <<vLock, vRet>> /\ UnchangedW
        /\ vRecv' = [vRecv EXCEPT ![c] = @ \o vJob[c]]
        /\ vJob' = [vJob EXCEPT ![c] = <<>>]

\* Some other thread registers broadcasts.
External(i) ==
  /\ UNCHANGED <<vTodo, vRan, vJob, vIn, vRecv, vNext, vAbort, vLock>>
  /\ \/ /\ vPc[X(i)] = "x1" /\ vReg[i] <= Len(Regs[i]) /\ UNCHANGED <<vRet, vReg>> /\ Goto(X(i), "x2")
        /\ See(<<EvB("regS", Regs[i][vReg[i]])>>) /\ UNCHANGED <<vPool, vTx, vBufs, vPermit, vRxAb, vTxAb, vBcq>>
     \/ /\ vPc[X(i)] = "x2" /\ UNCHANGED vReg
        /\ Put([W EXCEPT !.bcq = Append(@, Regs[i][vReg[i]])])
        /\ Enter(X(i), "p1", "x3")
     \/ /\ vPc[X(i)] = "x3" /\ UNCHANGED vRet /\ Goto(X(i), "x1")
        /\ See(<<EvB("regE", Regs[i][vReg[i]])>>) /\ vReg' = [vReg EXCEPT ![i] = @ + 1]
        /\ UNCHANGED <<vPool, vTx, vBufs, vPermit, vRxAb, vTxAb, vBcq>>

Next ==
  \/ Accept \/ Request
  \/ \E c \in Conns : Receive(c) \/ Transmit(c)
  \/ \E i \in Threads : External(i)
  \/ \E p \in Procs : Drain(p)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Allowed == vObs # {}
LockSane == vLock # Free => vPc[vLock] \in {"a3", "s2", "r3", "r5", "t3", "d1", "d2", "d3"}
\* Nothing is lost on the way to the client.
Stream == \A c \in Conns : vPool[c] = "live" /\ c \in vTx =>
            \E s \in vObs : Queue(s, c) = vRecv[c] \o vJob[c] \o vBufs[c]
\* A client sees the end of the stream once both jobs have ended.
Ended(c) == vPc[R(c)] = "end" /\ vPc[T(c)] = "end"
Quiescent ==
  ~ ENABLED Next =>
    Steps(vObs, <<Ev("quietb"), [k |-> "quietc", open |-> Cardinality({c \in Conns : vPc[R(c)] # "unborn" /\ ~Ended(c)})], Ev("quiets")>>
                \o [i \in 1..NC |-> [k |-> "recv", c |-> i, v |-> vRecv[i]]]) # {}
=============================================================================
