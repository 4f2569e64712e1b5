------------------------------- MODULE Server ------------------------------
(***************************************************************************)
(* A terminal server: connections, the application's registry of clients   *)
(* and screens, and what every input does to them.  Everything between a   *)
(* read and the end of its processing is one atomic step (the server holds *)
(* its connection pool exclusively); broadcasts enqueued by a step run at  *)
(* its end.  Dispatch.tla is about how that atomicity is achieved.         *)
(*                                                                         *)
(* The application also understands a module of its own, foo2.4, whose     *)
(* messages make handlers do what handlers may do: accept, reject, reply,  *)
(* broadcast, tear down the connection, and combinations thereof.          *)
(***************************************************************************)
EXTENDS Messages, Selectors

\* A connection: mode "hs" (awaiting a handshake), "msg", "in", "out" or "down"; id is the client
\* or screen ID; buf holds received bytes that have not been consumed.
NewConn == [mode |-> "hs", id |-> <<>>, buf |-> <<>>]

\* A registered client and a screen.  sin, sout, serr: screen IDs, empty if absent.
NewClient(id, secret, sin, sout, serr) ==
  [id |-> id, secret |-> secret, used |-> FALSE, sin |-> sin, sout |-> sout, serr |-> serr]
NewScreen(id, isec, osec) == [id |-> id, isec |-> isec, osec |-> osec, iused |-> FALSE, oused |-> FALSE]

\* The whole system.  next counts the secrets the application has issued; ext: whether the
\* application has modules of its own.
NewSys(clients, screens) == [conns |-> <<>>, reg |-> clients, scr |-> screens, next |-> 1, ext |-> TRUE]

\* What a step does, as observed: input consumed (messages handled and bytes discarded, in order),
\* parse errors reported to handlers, calls to the application, standard output delivered, output
\* enqueued per connection, I/O errors notified.
NewLog(n) == [input |-> <<>>, errs |-> <<>>, app |-> <<>>, sout |-> <<>>, out |-> [i \in 1..n |-> <<>>], ioerr |-> 0]

\* Issued secrets are named n000...1, n000...2 and so on, as long as the real ones.
Name_n == B("n")
Issued(n) == LET d == Dec(n) IN Name_n \o Rep(48, 31 - Len(d)) \o d

----------------------------------------------------------------------------
\* w = [sys, log, bq] is the working state during a step.
Mode(w, c) == w.sys.conns[c].mode
SetMode(w, c, m) == [w EXCEPT !.sys.conns[c].mode = m]
SetModeId(w, c, m, id) == [w EXCEPT !.sys.conns[c].mode = m, !.sys.conns[c].id = id]
Call(w, e) == [w EXCEPT !.log.app = Append(@, e)]
Input(w, e) == [w EXCEPT !.log.input = Append(@, e)]

\* Enqueueing output.  A message that exceeds the size limit closes the connection instead.
Reply(w, c, bytes) ==
  IF Len(bytes) > MaxMsgLen THEN [SetMode(w, c, "down") EXCEPT !.log.ioerr = @ + 1]
  ELSE [w EXCEPT !.log.out[c] = @ \o bytes]

\* Positions in sequences of records.
Where(s, P(_)) == {i \in 1..Len(s) : P(s[i])}
First(S) == CHOOSE i \in S : \A j \in S : i <= j

----------------------------------------------------------------------------
\* Handshake.  The result is [ok, w].
Fine(w) == [ok |-> "ok", w |-> w]
Invalid(w) == [ok |-> "invalid", w |-> w]
Unknown(w) == [ok |-> "unknown", w |-> w]

HsClient(w, c, secret) ==
  LET S == Where(w.sys.reg, LAMBDA r : r.secret = secret /\ ~r.used)
      w1 == Call(w, [k |-> "auth_client", s |-> secret, ok |-> S # {}])
  IN IF S = {} THEN Invalid(w1) ELSE
     LET i == First(S)
         r == w.sys.reg[i]
         w2 == [SetModeId(w1, c, "msg", r.id) EXCEPT !.sys.reg[i].used = TRUE]
     IN Fine(Reply(w2, c, EncodeTyped("server_hello", <<r.id, r.sin, r.sout, r.serr>>)))
HsStdin(w, c, secret) ==
  LET S == Where(w.sys.scr, LAMBDA r : r.isec = secret /\ ~r.iused)
      w1 == Call(w, [k |-> "auth_stdin", s |-> secret, ok |-> S # {}])
  IN IF S = {} THEN Invalid(w1)
     ELSE Fine([SetModeId(w1, c, "in", w.sys.scr[First(S)].id) EXCEPT !.sys.scr[First(S)].iused = TRUE])
HsStdout(w, c, secret) ==
  LET S == Where(w.sys.scr, LAMBDA r : r.osec = secret /\ ~r.oused)
      w1 == Call(w, [k |-> "auth_stdout", s |-> secret, ok |-> S # {}])
  IN IF S = {} THEN Invalid(w1)
     ELSE Fine([SetModeId(w1, c, "out", w.sys.scr[First(S)].id) EXCEPT !.sys.scr[First(S)].oused = TRUE])

T_FooHello == B("foo2.hello")
HsHandle(w, c, ty, args) ==
  CASE ty = TyBytes["client_hello"] -> IF TypedOk("client_hello", ty, args) THEN HsClient(w, c, args[1]) ELSE Invalid(w)
    [] ty = TyBytes["stdin_hello"]  -> IF TypedOk("stdin_hello", ty, args) THEN HsStdin(w, c, args[1]) ELSE Invalid(w)
    [] ty = TyBytes["stdout_hello"] -> IF TypedOk("stdout_hello", ty, args) THEN HsStdout(w, c, args[1]) ELSE Invalid(w)
    [] ty = T_FooHello /\ w.sys.ext -> Fine(w)
    [] OTHER -> Unknown(w)

----------------------------------------------------------------------------
\* Messages.
M_core1 == B("core1")
M_posix1 == B("posix1")
M_foo2 == B("foo2")
M_bar == B("bar65535")
HaveReply(sys, mod) ==
  LET v == CASE mod \in {M_core1, M_posix1} -> B(".0") [] mod = M_foo2 /\ sys.ext -> B(".4") [] mod = M_bar /\ sys.ext -> B(".65535") [] OTHER -> <<>>
  IN EncodeTyped("have", <<mod \o v>>)
NopeReply(ty) == EncodeTyped("nope", <<ty>>)

ClientMakeOk(w, c, id) ==
  /\ StrictlyBelow(w.sys.conns[c].id, id)
  /\ Where(w.sys.reg, LAMBDA r : AtOrBelow(id, r.id)) = {}
ClientMake(w, c, a) ==
  IF ~ClientMakeOk(w, c, a[1]) THEN Invalid(w) ELSE
  LET secret == Issued(w.sys.next)
      w1 == [w EXCEPT !.sys.reg = Append(@, NewClient(a[1], secret, a[2], a[3], a[4])), !.sys.next = @ + 1]
      w2 == Call(w1, [k |-> "register", id |-> a[1], sin |-> a[2], sout |-> a[3], serr |-> a[4], s |-> secret])
  IN Fine(Reply(w2, c, EncodeTyped("client_new", <<secret>>)))
ClientEnd(w, c, id) ==
  IF ~StrictlyBelow(w.sys.conns[c].id, id) THEN Invalid(w) ELSE
  LET w1 == [w EXCEPT !.sys.reg = SelectSeq(@, LAMBDA r : ~AtOrBelow(id, r.id)), !.bq = Append(@, [k |-> "end", v |-> id, d |-> <<>>])]
  IN Fine(Call(w1, [k |-> "unregister", id |-> id]))

F_ok == B("foo2.ok")           \* accepted without reply
F_bad == B("foo2.bad")         \* understood but invalid
F_echo == B("foo2.echo")       \* replies with its argument
F_quit == B("foo2.quit")       \* the handler tears the connection down
F_quitbad == B("foo2.quitbad") \* ... and reports an invalid message
F_quitunk == B("foo2.quitunk") \* ... or an unknown one
F_bcast == B("foo2.bcast")     \* sends a note to all message connections
F_note == B("foo2.note")
F_type == B("foo2.type")       \* sends bytes to a screen's stdin
Foo(w, c, ty, args) ==
  CASE ty = F_ok -> Fine(w)
    [] ty = F_bad -> Invalid(w)
    [] ty = F_echo -> IF Len(args) = 1 THEN Fine(Reply(w, c, Render(F_echo, args))) ELSE Invalid(w)
    [] ty = F_quit -> Fine(SetMode(w, c, "down"))
    [] ty = F_quitbad -> Invalid(SetMode(w, c, "down"))
    [] ty = F_quitunk -> Unknown(SetMode(w, c, "down"))
    [] ty = F_bcast -> IF Len(args) = 1 THEN Fine([w EXCEPT !.bq = Append(@, [k |-> "note", v |-> args[1], d |-> <<>>])]) ELSE Invalid(w)
    [] ty = F_type -> IF Len(args) = 2 THEN Fine([w EXCEPT !.bq = Append(@, [k |-> "type", v |-> args[1], d |-> args[2]])]) ELSE Invalid(w)
    [] OTHER -> Unknown(w)

MsgHandle(w, c, ty, args) ==
  CASE ty = TyBytes["want"] -> IF TypedOk("want", ty, args) THEN Fine(Reply(w, c, HaveReply(w.sys, args[1]))) ELSE Invalid(w)
    [] ty = TyBytes["client_make"] -> IF TypedOk("client_make", ty, args) THEN ClientMake(w, c, args) ELSE Invalid(w)
    [] ty = TyBytes["client_end"] -> IF TypedOk("client_end", ty, args) THEN ClientEnd(w, c, args[1]) ELSE Invalid(w)
    [] ty \in {TyBytes["client_hello"], TyBytes["stdin_hello"], TyBytes["stdout_hello"]} -> Invalid(w)
    [] OTHER -> IF w.sys.ext THEN Foo(w, c, ty, args) ELSE Unknown(w)

----------------------------------------------------------------------------
\* One message.
HandleMsg(w, c, r) ==
  LET w1 == Input(w, [k |-> "msg", c |-> c, ty |-> r.ty, args |-> r.args]) IN
  IF Mode(w, c) = "hs" THEN
    LET h == HsHandle(w1, c, r.ty, r.args) IN
    IF h.ok = "ok" THEN h.w ELSE SetMode(h.w, c, "down")
  ELSE
    LET h == MsgHandle(w1, c, r.ty, r.args) IN
    IF h.ok = "ok" \/ Mode(h.w, c) = "down" THEN h.w
    ELSE IF h.ok = "unknown" /\ IsScoped(r.ty) THEN Reply(h.w, c, HaveReply(h.w.sys, Left(r.ty)))
    ELSE Reply(h.w, c, NopeReply(r.ty))
Consume(w, c, n) == [w EXCEPT !.sys.conns[c].buf = From(@, n + 1)]

\* A parse error: skip to the next message opener.
Recover(w, c, r) ==
  LET buf == w.sys.conns[c].buf
      p == Find(buf, OPEN, 2)
      n == IF p = 0 THEN Len(buf) ELSE p - 1
      w1 == [w EXCEPT !.log.errs = Append(@, [kind |-> r.kind, off |-> r.off])]
      w2 == IF Mode(w, c) = "hs" THEN SetMode(w1, c, "down") ELSE w1
  IN Consume(Input(w2, [k |-> "disc", c |-> c, b |-> Upto(buf, n)]), c, n)

RECURSIVE Process(_, _)
Process(w, c) ==
  LET cn == w.sys.conns[c] IN
  IF cn.buf = <<>> \/ cn.mode = "down" THEN w
  ELSE IF cn.mode = "in" THEN
    Consume(Input(SetMode(w, c, "down"), [k |-> "disc", c |-> c, b |-> cn.buf]), c, Len(cn.buf))
  ELSE IF cn.mode = "out" THEN
    Consume([w EXCEPT !.log.sout = Append(@, [scr |-> cn.id, b |-> cn.buf])], c, Len(cn.buf))
  ELSE LET r == Parse(cn.buf) IN
       IF Incomplete(r) THEN w
       ELSE IF r.st = "ok" THEN Process(Consume(HandleMsg(w, c, r), c, r.len), c)
       ELSE Process(Recover(w, c, r), c)

\* Broadcasts.
BcastOn(w, b, c) ==
  LET cn == w.sys.conns[c] IN
  CASE b.k = "end" -> IF cn.mode = "msg" /\ AtOrBelow(b.v, cn.id) THEN SetMode(w, c, "down") ELSE w
    [] b.k = "note" -> IF cn.mode = "msg" THEN Reply(w, c, Render(F_note, <<b.v>>)) ELSE w
    [] b.k = "type" -> IF cn.mode = "in" /\ cn.id = b.v THEN [w EXCEPT !.log.out[c] = @ \o b.d] ELSE w
Bcast(w) ==
  LET One(v, b) == FoldLeft(LAMBDA x, c : BcastOn(x, b, c), v, [i \in 1..Len(v.sys.conns) |-> i])
  IN [FoldLeft(One, w, w.bq) EXCEPT !.bq = <<>>]

\* Closed connections forget their input.
Forget(w) == [w EXCEPT !.sys.conns = [i \in 1..Len(@) |-> IF @[i].mode = "down" THEN [@[i] EXCEPT !.buf = <<>>] ELSE @[i]]]

----------------------------------------------------------------------------
\* Steps.
Work(sys) == [sys |-> sys, log |-> NewLog(Len(sys.conns)), bq |-> <<>>]
Open(sys) == LET s == [sys EXCEPT !.conns = Append(@, NewConn)] IN Work(s)
Close(sys, c) == Forget(SetMode(Work(sys), c, "down"))
Feed(sys, c, bytes) == Forget(Bcast(Process([Work(sys) EXCEPT !.sys.conns[c].buf = @ \o bytes], c)))

DoStep(sys, st) ==
  CASE st.k = "open" -> Open(sys)
    [] st.k = "close" -> Close(sys, st.c)
    [] st.k = "feed" -> Feed(sys, st.c, st.b)

----------------------------------------------------------------------------
(* Safety properties of the system (invariants of MCServer, checked after every step of every    *)
(* generated session as well).                                                                    *)
\* C13: every registered client descends from an initial one; no two registrations share an ID
RegistryOk(sys, roots) ==
  /\ \A i \in 1..Len(sys.reg) : \E r \in roots : AtOrBelow(r, sys.reg[i].id)
  /\ \A i, j \in 1..Len(sys.reg) : i # j => sys.reg[i].id # sys.reg[j].id /\ sys.reg[i].secret # sys.reg[j].secret
\* C09/C14: a message connection belongs to a registered client whose secret was used up, and no
\* two connections share a client; likewise for screens
ConnsOk(sys) ==
  /\ \A c \in 1..Len(sys.conns) : sys.conns[c].mode = "msg" =>
       \E i \in 1..Len(sys.reg) : sys.reg[i].id = sys.conns[c].id /\ sys.reg[i].used
  /\ \A c, d \in 1..Len(sys.conns) : c # d /\ sys.conns[c].mode = sys.conns[d].mode /\ sys.conns[c].mode \in {"msg", "in", "out"}
       => sys.conns[c].id # sys.conns[d].id

\* C15: input affects other connections only where a handled message is meant to: client-end closes
\* connections, the application's broadcasts write to them.  Nothing else changes on them, and the
\* registry changes only by handshakes, client-make and client-end.  (w = Feed(sys, c, ...))
HandledTypes(w) == {w.log.input[i].ty : i \in {j \in 1..Len(w.log.input) : w.log.input[j].k = "msg"}}
Confined(sys, c, w) ==
  LET T == HandledTypes(w) IN
  /\ \A d \in 1..Len(sys.conns) : d # c =>
       /\ TyBytes["client_end"] \notin T /\ F_bcast \notin T => w.sys.conns[d] = sys.conns[d]
       /\ {F_bcast, F_type} \cap T = {} => w.log.out[d] = <<>>
       /\ w.sys.conns[d] # sys.conns[d] => w.sys.conns[d].mode = "down" /\ sys.conns[d].mode = "msg"
  /\ {TyBytes["client_hello"], TyBytes["client_make"], TyBytes["client_end"]} \cap T = {} => w.sys.reg = sys.reg

\* C11: observations that may not depend on how the input is cut into reads
Msgs(input) == SelectSeq(input, LAMBDA e : e.k = "msg")
Discarded(input) == FoldLeft(LAMBDA acc, e : acc \o e.b, <<>>, SelectSeq(input, LAMBDA e : e.k = "disc"))
Sout(s) == FoldLeft(LAMBDA acc, e : acc \o e.b, <<>>, s)
Join(l, m) == [input |-> l.input \o m.input, errs |-> l.errs \o m.errs, app |-> l.app \o m.app, sout |-> l.sout \o m.sout,
               out |-> [i \in DOMAIN l.out |-> l.out[i] \o m.out[i]], ioerr |-> l.ioerr + m.ioerr]
Essence(log, sys, c) ==
  [msgs |-> Msgs(log.input), app |-> log.app, sout |-> Sout(log.sout), out |-> log.out, sys |-> sys,
   disc |-> IF sys.conns[c].mode = "down" THEN <<>> ELSE Discarded(log.input)]
\* Holds for input without broadcasts of the application's own, whose place among the replies
\* depends on where the step ends.
SplitLaw(sys, c, b, k) ==
  LET one == Feed(sys, c, b)
      w1 == Feed(sys, c, Upto(b, k))
      w2 == Feed(w1.sys, c, From(b, k + 1))
  IN Essence(one.log, one.sys, c) = Essence(Join(w1.log, w2.log), w2.sys, c)
=============================================================================
