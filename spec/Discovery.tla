----------------------------- MODULE Discovery -----------------------------
(***************************************************************************)
(* Client-side discovery of the terminal (vt6/posix, section 2.2): file    *)
(* descriptor 60 is read until a message is complete, cannot become one,   *)
(* the descriptor is at its end, or the buffer is full; then it is closed. *)
(*                                                                         *)
(* The descriptor is a pipe holding what the writer has written and the    *)
(* reader has not read.  Reads return any non-empty part of it that fits.  *)
(***************************************************************************)
EXTENDS Messages

Cap == MaxMsgLen

\* What discovery reports for a stream (the bytes the writer ever writes).  The position of an error
\* is left open: it may depend on where reading stopped (`{1|01' and `{1|019' are wrong for the same
\* reason, found at different places).
Outcome(stream) ==
  LET r == Parse(Upto(stream, IF Len(stream) < Cap THEN Len(stream) ELSE Cap)) IN
  CASE r.st # "ok" -> [res |-> "corrupt", kind |-> r.kind]
    [] r.st = "ok" /\ TypedOk("parent_hello", r.ty, r.args) -> [res |-> "ok", path |-> r.args[2]]
    [] OTHER -> [res |-> "invalid", disp |-> Display(r.ty, r.args)]
\* Whether the reader still wants more, having read buf.
Wants(buf) == Incomplete(Parse(buf)) /\ Len(buf) < Cap
\* ... and for descriptors that are no such thing
NoTerminal == [res |-> "none"]
Failure == [res |-> "ioerr"]
\* A socket whose writer goes away in a manner that makes reading fail once everything is read: the failure is
\* reported, unless the outcome is determined by then.
OutcomeBroken(stream) == IF Wants(Upto(stream, IF Len(stream) < Cap THEN Len(stream) ELSE Cap)) THEN Failure ELSE Outcome(stream)
OutcomeOf(kind, stream) ==
  CASE kind = "reset" -> OutcomeBroken(stream)
    [] kind \in {"pipe", "file", "socket"} -> Outcome(stream)
    [] kind \in {"closed", "wronly", "epoll"} -> NoTerminal
    [] kind \in {"dir", "empty-nonblocking"} -> Failure


----------------------------------------------------------------------------
\* The system: stream is what the writer means to write, w how much of it is written, buf what is read.
\* eof: the writer has closed its end; broken: in such a way that reading beyond what was written fails.
\* done: the reader has finished and closed the descriptor; failed: it saw the failure.
Reader0 == [buf |-> <<>>, eof |-> FALSE, broken |-> FALSE, done |-> FALSE, failed |-> FALSE]
CanRead(rd, stream, w) == ~rd.done /\ (w > Len(rd.buf) \/ rd.eof)
\* One read returning n bytes (n = 0: end of file)
ReadN(rd, stream, n) ==
  LET b == rd.buf \o SubSeq(stream, Len(rd.buf) + 1, Len(rd.buf) + n)
  IN [rd EXCEPT !.buf = b, !.done = n = 0 \/ ~Wants(b), !.failed = n = 0 /\ rd.broken]
Ended(rd) == IF rd.failed THEN Failure ELSE Outcome(rd.buf)
Readable(rd, stream, w) == LET a == w - Len(rd.buf) IN IF a < Cap - Len(rd.buf) THEN a ELSE Cap - Len(rd.buf)

(* Properties *)
\* C20: the outcome is that of the stream, however it was cut
Faithful(rd, stream) == rd.done => Ended(rd) = (IF rd.broken THEN OutcomeBroken(stream) ELSE Outcome(stream))
\* it does not wait for more than it needs: it is done as soon as the outcome is determined
Prompt(rd, stream, w) == (w = Len(rd.buf) /\ w > 0 /\ ~Wants(Upto(stream, w))) => rd.done
\* and never takes more than the first message, except what came along with it, nor more than the buffer holds
Modest(rd) == Len(rd.buf) <= Cap
=============================================================================
