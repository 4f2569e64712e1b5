------------------------------ MODULE MCRender -----------------------------
(***************************************************************************)
(* Messages built from every short list of arguments over a pool of byte   *)
(* strings, rendered into buffers of every capacity up to a little more    *)
(* than their size and around the 1024-byte limit.                         *)
(***************************************************************************)
EXTENDS Messages, Json
CONSTANTS Pool, MaxArgs

VARIABLE vArgs
Wire_ == { B("a"), <<>>, B("x y"), B("{},|:"), <<0, 255, 10>>, Rep(98, 9), Rep(99, 10) }
\* every byte on its own, and next to a quote
Bytes_ == { <<b>> : b \in 0..255 } \union { <<34, b>> : b \in {34, 39, 92, 48, 120, 255} }
\* sizes around the limits: total wire sizes from 1015 to 1034 with one argument
Big_ == { Rep(97, k) : k \in 995..1016 } \union { Rep(97, k) : k \in {0, 98, 99, 100, 101, 489, 490, 498, 499, 500, 501, 502} }

Init == vArgs = <<>>
Next == Len(vArgs) < MaxArgs /\ \E a \in Pool : vArgs' = Append(vArgs, a)
Spec == Init /\ [][Next]_vArgs

TY == B("foo1.bar")
Lemmas == RenderParses(TY, vArgs, <<>>) /\ (Len(Render(TY, vArgs)) < 300 => DisplayReadable(TY, vArgs))
Emit ==
  LET w == Render(TY, vArgs)
      n == Len(w)
      caps == IF n <= 64 THEN Tup([i \in 1..(n + 3) |-> i - 1], n + 3) \o <<1023, 1024, 1025>>
              ELSE <<0, n - 1, n, n + 1, 1000, 1023, 1024, 1025, 5000>>
  IN PrintT("@@0 " \o ToJson([case |-> [op |-> "render", ty |-> TY, args |-> vArgs, caps |-> caps],
       exp |-> [wire |-> w, disp |-> Display(TY, vArgs),
                caps |-> Tup([i \in 1..Len(caps) |-> LET q == RenderInto(TY, vArgs, caps[i]) IN [ok |-> q.ok, n |-> q.n]], Len(caps))]]))
=============================================================================
