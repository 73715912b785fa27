--------------------------------- MODULE Process ---------------------------------
(***************************************************************************)
(* Process streams (C22): what a pipeline of programs delivers, and what   *)
(* becomes of its last program and of the files that capture diagnostics.  *)
(*                                                                         *)
(* A program is [k, n]: gen (n bytes), genfail (and then an error status), *)
(* hang (n bytes, then waits forever), cat, inc (adds one to every byte),  *)
(* head (the first n bytes), flood (copies after a lot of diagnostics),    *)
(* fail (copies, error status), stay (copies, then waits forever), linger  *)
(* (copies, closes its output and ends a bit later).                       *)
(* What a pipeline delivers is the length, what was added to every byte,   *)
(* and whether the output ends.                                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Min(a, b) == IF a < b THEN a ELSE b
Feed(o, s) ==
  CASE s.k \in {"gen", "genfail"} -> [n |-> s.n, shift |-> 0, ends |-> TRUE]
    [] s.k = "hang" -> [n |-> s.n, shift |-> 0, ends |-> FALSE]
    [] s.k = "inc" -> [o EXCEPT !.shift = (@ + 1) % 256]
    [] s.k = "head" -> IF s.n <= o.n THEN [o EXCEPT !.n = s.n, !.ends = TRUE] ELSE o
    [] s.k = "stay" -> [o EXCEPT !.ends = FALSE]
    [] OTHER -> o
RECURSIVE Through(_, _)
Through(o, ss) == IF ss = <<>> THEN o ELSE Through(Feed(o, ss[1]), Tail(ss))
Output(ss) == Through([n |-> 0, shift |-> 0, ends |-> TRUE], ss)

Initial(c) == [cfg |-> c, out |-> Output(c.stages), st |-> "new", cancelled |-> FALSE]

\* The storage refuses data before all of it arrived
Failing(m) == m.cfg.fail >= 0 /\ m.cfg.fail < m.out.n

Upd(m, e) ==
  CASE e.e = "spawn" -> [m EXCEPT !.st = IF e.ok THEN "spawned" ELSE "dropped"]
    [] e.e = "create" -> [m EXCEPT !.st = IF e.ok THEN "streaming" ELSE "dropped"]
    [] e.e = "cancel" -> [m EXCEPT !.cancelled = TRUE]
    [] e.e = "drop" -> [m EXCEPT !.st = IF e.what = "params" THEN "dropped" ELSE @,
                                 !.cancelled = @ \/ m.cfg.cod]
    [] OTHER -> m

If(c, v) == IF c THEN {v} ELSE {}
V(c, text) == If(c, <<"C22", text>>)

ReadViols(m, e) ==
  LET left == IF m.out.n > e.p THEN m.out.n - e.p ELSE 0
      free == ~Failing(m) /\ ~m.cancelled
  IN V(e.n > left, "delivers more than the output of the command")
     \cup V(e.n > 0 /\ e.shift /= m.out.shift, "delivers something else than the output of the command")
     \cup V(free /\ e.err, "reading the output fails")
     \cup V(free /\ e.n < Min(e.w, left), "delivers less than the output of the command")
     \cup V(~m.cancelled /\ e.end /\ (e.n < left \/ ~m.out.ends), "ends before the output of the command does")
     \cup V(free /\ m.out.ends /\ e.w > left /\ ~e.end, "the end of the output isn't reported")

Viols(m, e) ==
  CASE e.e = "spawn" ->
       V(e.ok /\ m.cfg.missing >= 0, "a program that can't be started isn't reported")
       \cup V(~e.ok /\ m.cfg.missing < 0, "starting existing programs fails")
       \cup V(~e.ok /\ e.files > 0, "files are left behind by programs that could not be started")
    [] e.e = "create" -> V(e.ok = m.cfg.refuse, "the result of creating the stream is wrong")
    [] e.e = "rd" -> ReadViols(m, e)
    [] e.e = "sk" -> V(~e.ok /\ ~Failing(m) /\ ~m.cancelled /\ e.p <= m.out.n, "seeking within the output fails")
    [] e.e = "waited" ->
       V(e.last = "running", "the download is over while the command still runs")
       \cup V(e.last = "zombie", "the download is over but the command wasn't waited for")
       \cup V(e.files > 0, "the download is over but captured diagnostics are left")
    [] e.e = "settled" ->
       V(e.last = "running", "the command keeps running")
       \cup V(e.last = "zombie" /\ m.st = "streaming", "the command is never waited for")
       \cup V(e.files > 0, "captured diagnostics are never removed")
    [] e.e = "down" ->
       V(e.last = "running", "the command outlives the runtime")
       \cup V(e.files > 0, "captured diagnostics outlive the runtime")
    [] e.e = "hung" -> V(TRUE, "an operation never returns")
    [] OTHER -> {}
=============================================================================
