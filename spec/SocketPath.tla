----------------------------- MODULE SocketPath ----------------------------
(***************************************************************************)
(* The default socket path.  A configuration is what XDG_RUNTIME_DIR names *)
(* and what, if that is a directory, its entry vt6 is.  Processes start by *)
(* looking, then create the directory, then answer.                        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

\* What XDG_RUNTIME_DIR refers to.  link: to a directory.  proc: a directory that nobody can create anything in.
Runtimes == {"unset", "empty", "missing", "file", "dir", "link", "dangling", "filelink", "proc"}
Entries == {"none", "dir", "full", "file", "link", "dangling", "filelink"}
Names == {"plain", "spaces", "binary", "deep"}
Forms == {"absolute", "relative", "slash"}
Configs == {c \in [runtime : Runtimes, entry : Entries, name : Names, form : Forms] :
              /\ c.runtime \notin {"dir", "link"} => c.entry = "none"
              /\ c.runtime \in {"unset", "empty", "proc"} => c.name = "plain" /\ c.form = "absolute"
              /\ c.form # "absolute" => c.name \in {"plain", "binary"} /\ c.entry \in {"none", "dir", "file"} }

IsDir(runtime) == runtime \in {"dir", "link", "proc"}
\* Is the vt6 entry a directory (possibly by way of a symbolic link)?
Usable(entry) == entry \in {"dir", "full", "link"}
CanCreate(runtime, entry) == runtime # "proc" /\ entry = "none"

Answer(c) ==
  LET ok == IsDir(c.runtime) /\ (Usable(c.entry) \/ CanCreate(c.runtime, c.entry))
  IN [ok |-> ok, creates |-> ok /\ c.entry = "none"]

----------------------------------------------------------------------------
\* Several processes: pc in {"start", "create", "done"}, answers; entry: the vt6 entry.
\* Creating a directory that has appeared in the meantime is no error.
Step(ps, entry, p, c) ==
  CASE ps[p].pc = "start" ->
         IF ~IsDir(c.runtime) THEN <<[ps EXCEPT ![p] = [pc |-> "done", ok |-> FALSE]], entry>> ELSE <<[ps EXCEPT ![p].pc = "create"], entry>>
    [] ps[p].pc = "create" ->
         IF Usable(entry) THEN <<[ps EXCEPT ![p] = [pc |-> "done", ok |-> TRUE]], entry>>
         ELSE IF CanCreate(c.runtime, entry) THEN <<[ps EXCEPT ![p] = [pc |-> "done", ok |-> TRUE]], "dir">>
         ELSE <<[ps EXCEPT ![p] = [pc |-> "done", ok |-> FALSE]], entry>>
=============================================================================
