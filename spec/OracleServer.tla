--------------------------- MODULE OracleServer ----------------------------
(***************************************************************************)
(* Evaluates the server specification on sessions (sequences of steps) and *)
(* checks the safety properties and the splitting law on the way.          *)
(***************************************************************************)
EXTENDS Server, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES vIdx, vDone

Summary(w) == [log |-> w.log, conns |-> w.sys.conns, reg |-> w.sys.reg]
Sys0(c) == [NewSys(c.clients, c.screens) EXCEPT !.ext = IF "ext" \in DOMAIN c THEN c.ext ELSE TRUE]
\* All states and logs of a session.
Run(c) == FoldLeft(LAMBDA acc, st : LET w == DoStep(acc[1], st) IN <<w.sys, Append(acc[2], w)>>,
                   <<Sys0(c), <<>>>>, c.steps)
Roots(c) == {c.clients[i].id : i \in 1..Len(c.clients)}

Needles == {B("10:foo2.bcast"), B("9:foo2.type")}
HasPart(b, x) == \E p \in 1..(Len(b) - Len(x) + 1) : b[p] = x[1] /\ SubSeq(b, p, p + Len(x) - 1) = x
SplitsOk(c, ws) ==
  \A n \in 1..Len(c.steps) :
    LET st == c.steps[n]
        sys == IF n = 1 THEN Sys0(c) ELSE ws[n - 1].sys
    IN st.k = "feed" =>
       \A i \in 1..Len(c.splits) :
         LET k == c.splits[i] IN
         k < Len(st.b) /\ (\A x \in Needles : ~HasPart(sys.conns[st.c].buf \o st.b, x)) => SplitLaw(sys, st.c, st.b, k)

\* Floods: after some steps, n copies of a unit arrive on one connection.  The answer describes one
\* copy.  For it to describe all, a copy must leave the system as it was (or end the connection),
\* and two copies must do what one copy does, twice (rep).  Other units are not used.
FloodOk(sys, c, unit) ==
  LET one == Feed(sys, c, unit)
      two == Feed(one.sys, c, unit)
      both == Feed(sys, c, unit \o unit)
  IN IF one.sys.conns[c].mode = "down" THEN Essence(one.log, one.sys, c) = Essence(both.log, both.sys, c)
     ELSE /\ one.sys = sys
          /\ Essence(both.log, both.sys, c) = Essence(Join(one.log, two.log), two.sys, c)
Concat(ws, c) == FoldLeft(LAMBDA acc, w : IF Len(w.log.out) < c THEN acc ELSE acc \o w.log.out[c], <<>>, ws)
Ask == EncodeTyped("want", <<M_core1>>)
Greeting(sys, secret) ==
  LET o == Open(sys).sys
      n == Len(o.conns)
      h == EncodeTyped("client_hello", <<secret>>)
  IN [hello |-> h, greet |-> Feed(o, n, h).log.out[n]]
Flood(c) ==
  LET ws == Run(c)[2]
      sys == ws[Len(ws)].sys
      one == Feed(sys, c.c, c.lead \o c.unit)
      ans == Feed(sys, 2, Ask).log.out[2]
      exact == c.lead = <<>> /\ FloodOk(sys, c.c, c.unit)
  IN /\ PrintT("@@" \o ToString(vIdx) \o " " \o ToJson([rep |-> exact, one |-> Summary(one), disc |-> Discarded(one.log.input),
                    greet |-> Concat(ws, 2), ask |-> Ask, answer |-> ans,
                    fresh |-> <<Greeting(sys, c.fresh[1]), Greeting(sys, c.fresh[2])>>]))
     /\ Assert(Confined(sys, c.c, one) /\ Feed(one.sys, 2, Ask).log.out[2] = ans, <<"confinement", vIdx>>)
     /\ Assert(\A i \in 1..2 : Greeting(sys, c.fresh[i]).greet # <<>> /\ Greeting(one.sys, c.fresh[i]) = Greeting(sys, c.fresh[i]), <<"newcomers", vIdx>>)

\* Races: after some steps, several connections send messages at the same time.  Every step being
\* atomic (and handling no less than a message), what is seen must be what one of the orders gives.  A
\* result says what each connection receives in all and which are closed, and which clients are
\* registered at the end.
Total(c) == FoldLeft(LAMBDA a, x : a + Len(x.ms), 0, c.race)
Orders(c) == {p \in [1..Total(c) -> 1..Len(c.race)] : \A i \in 1..Len(c.race) : Cardinality({k \in 1..Total(c) : p[k] = i}) = Len(c.race[i].ms)}
Outcome(c, sys, p) ==
  LET ws == FoldLeft(LAMBDA acc, i : LET s == IF acc = <<>> THEN sys ELSE acc[Len(acc)].sys
                                         f == c.race[p[i]]
                                         m == f.ms[Cardinality({k \in 1..i : p[k] = p[i]})]
                                     IN Append(acc, IF s.conns[f.c].mode = "down" THEN Work(s) ELSE Feed(s, f.c, m)),
                     <<>>, [i \in 1..Total(c) |-> i])
      end == ws[Len(ws)].sys
  IN [out |-> [k \in 1..Len(end.conns) |-> Concat(ws, k)], mode |-> [k \in 1..Len(end.conns) |-> end.conns[k].mode],
      reg |-> [i \in 1..Len(end.reg) |-> [id |-> end.reg[i].id, used |-> end.reg[i].used]],
      safe |-> \A i \in 1..Len(ws) : RegistryOk(ws[i].sys, Roots(c)) /\ ConnsOk(ws[i].sys)]
Race(c) ==
  LET ws == Run(c)[2]
      sys == ws[Len(ws)].sys
      all == {Outcome(c, sys, p) : p \in Orders(c)}
  IN /\ PrintT("@@" \o ToString(vIdx) \o " " \o ToJson([rs |-> [i \in 1..Len(ws) |-> Summary(ws[i])], all |-> all]))
     /\ Assert(\A o \in all : o.safe, <<"safety", vIdx>>)

\* Churn: after some steps, connections come and go in large numbers.  Each says something (c.kinds[i])
\* and leaves.  Nobody else notices, and those who come later are greeted as ever; so, by induction, the
\* answer for one holds for any number.
Visit(sys, b) ==
  LET o == Open(sys).sys
      n == Len(o.conns)
      f == IF b = <<>> THEN Work(o) ELSE Feed(o, n, b)
  IN [log |-> f.log, got |-> f.log.out[n], sys |-> Close(f.sys, n).sys, ok |-> Confined(o, n, f)]
Churn(c) ==
  LET ws == Run(c)[2]
      sys == ws[Len(ws)].sys
      n == Len(sys.conns)
      visits == [i \in 1..Len(c.kinds) |-> Visit(sys, c.kinds[i])]
      fresh == [i \in 1..Len(c.fresh) |-> Greeting(sys, c.fresh[i])]
      ans == Feed(sys, 2, Ask).log.out[2]
  IN /\ PrintT("@@" \o ToString(vIdx) \o " " \o ToJson([greet |-> Concat(ws, 2), ask |-> Ask, answer |-> ans, fresh |-> fresh,
                    got |-> [i \in 1..Len(visits) |-> visits[i].got]]))
     /\ Assert(\A i \in 1..Len(visits) : LET v == visits[i] IN
                 /\ v.ok /\ (\A k \in 1..n : v.log.out[k] = <<>>)
                 /\ SubSeq(v.sys.conns, 1, n) = sys.conns /\ v.sys.conns[n + 1].mode = "down"
                 /\ [v.sys EXCEPT !.conns = sys.conns] = sys
                 /\ Feed(v.sys, 2, Ask).log.out[2] = ans
                 /\ \A j \in 1..Len(fresh) : fresh[j].greet # <<>> /\ Greeting(v.sys, c.fresh[j]) = fresh[j], <<"visits leave no trace", vIdx>>)

\* Long messages: c.short[i] are copies of a message that differ only in the length of one argument; what
\* they cause is the same, and so it is for longer ones.
Long(c) ==
  LET ws == Run(c)[2]
      sys == ws[Len(ws)].sys
      does == [i \in 1..Len(c.short) |-> Feed(sys, 2, c.short[i][1])]
  IN /\ PrintT("@@" \o ToString(vIdx) \o " " \o ToJson([greet |-> [k \in 1..Len(sys.conns) |-> Concat(ws, k)], ask |-> Ask, answer |-> [k \in 1..2 |-> Feed(sys, k + 1, Ask).log.out[k + 1]],
                    got |-> [i \in 1..Len(does) |-> does[i].log.out[2]]]))
     /\ Assert(\A i \in 1..Len(does) : \A j \in 1..Len(c.short[i]) : LET f == Feed(sys, 2, c.short[i][j]) IN f.sys = sys /\ f.log.out = does[i].log.out /\ Confined(sys, 2, f), <<"length does not matter", vIdx>>)

Init == vIdx \in 1..Len(Cases) /\ vDone = FALSE
Session(c) ==
  LET ws == Run(c)[2] IN
  /\ PrintT("@@" \o ToString(vIdx) \o " " \o ToJson([rs |-> [i \in 1..Len(ws) |-> Summary(ws[i])]]))
  /\ Assert(\A i \in 1..Len(ws) : RegistryOk(ws[i].sys, Roots(c)) /\ ConnsOk(ws[i].sys), <<"safety", vIdx>>)
  /\ Assert(SplitsOk(c, ws), <<"splitting law", vIdx>>)
  /\ Assert(\A i \in 1..Len(ws) : c.steps[i].k = "feed" => Confined(IF i = 1 THEN Sys0(c) ELSE ws[i - 1].sys, c.steps[i].c, ws[i]), <<"confinement", vIdx>>)
Next == /\ ~vDone
        /\ CASE Cases[vIdx].op = "flood" -> Flood(Cases[vIdx]) [] Cases[vIdx].op = "race" -> Race(Cases[vIdx]) [] Cases[vIdx].op = "churn" -> Churn(Cases[vIdx]) [] Cases[vIdx].op = "long" -> Long(Cases[vIdx]) [] OTHER -> Session(Cases[vIdx])
        /\ vDone' = TRUE
        /\ UNCHANGED vIdx
Spec == Init /\ [][Next]_<<vIdx, vDone>>
=============================================================================
