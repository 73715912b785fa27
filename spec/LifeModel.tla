-------------------------------- MODULE LifeModel --------------------------------
(***************************************************************************)
(* A design of creating a stream and of ending its download, checked       *)
(* against the obligations of Life for every sequence of operations of the *)
(* user and the source within the bounds. Every sequence becomes a test.   *)
(*                                                                         *)
(* The download task owns the source and is told to stop by one flag       *)
(* (`cancel`), which the token, the reader and its destructor set; another *)
(* flag (`finished`) is set when the task goes away, and is what handles   *)
(* wait for.                                                               *)
(***************************************************************************)
EXTENDS Life, TLC, Json

CONSTANTS MaxOps, Entries, Bug

VARIABLES m, viol, cfg, ops,
          task,      \* "none", "run", "hook" (waits for the finish hook) or "over"
          queue,     \* bytes the source has for the task
          ended,     \* the source has said that it's over
          cancel, finished,
          stored, waits
vars == <<m, viol, cfg, ops, task, queue, ended, cancel, finished, stored, waits>>

Cfgs == {c \in [entry : Entries, create : BOOLEAN, stor : BOOLEAN, cl : {-1, 1000}, cod : BOOLEAN, hook : {"ok", "slow", "err"}] :
           (c.entry = "new" \/ c.create) /\ (c.hook = "ok" \/ (c.entry # "ar" /\ Creatable(c)))}

RECURSIVE Fold(_, _, _)
Fold(x, es, vs) == IF es = <<>> THEN <<x, vs>>
                   ELSE Fold(Upd(x, es[1]), Tail(es), vs \cup Viols(x, es[1]))

Gone(what) == [e |-> "gone", what |-> what]
\* How the creation goes
Created(c) ==
  LET src == IF c.entry = "new" THEN <<[e |-> "create", ok |-> c.create]>> ELSE <<>>
      prov == <<[e |-> "prov", cl |-> c.cl, ok |-> c.stor], Gone("provider")>>
      new(ok, kind, text) == <<[e |-> "new", ok |-> ok, kind |-> kind, text |-> text, cl |-> IF ok THEN c.cl ELSE -1]>>
  IN IF ~c.create THEN src \o (IF Bug = "keep" THEN <<>> ELSE <<Gone("provider")>>)
                       \o new(FALSE, "stream", "decoded: no source today")
     ELSE IF ~c.stor THEN src \o prov \o (IF Bug = "leak" THEN <<>> ELSE <<Gone("source")>>)
                          \o new(FALSE, IF Bug = "kind" THEN "stream" ELSE "storage", "no storage today")
     ELSE src \o prov \o new(TRUE, "", "")

Init == /\ cfg \in Cfgs
        /\ LET r == Fold(Initial(cfg), Created(cfg) \o <<[e |-> "st", waits |-> <<>>]>>, {}) IN m = r[1] /\ viol = r[2]
        /\ ops = <<>>
        /\ task = IF Creatable(cfg) THEN "run" ELSE "none"
        /\ queue = 0 /\ ended = FALSE /\ cancel = FALSE /\ finished = FALSE
        /\ stored = 0 /\ waits = 0

\* What the task does until it can do nothing anymore, given the flags
Stops(cn, en) == task = "run" /\ (cn \/ en)
TaskEvents(cn, en, over) ==
  (IF cfg.entry = "ar" \/ ~Stops(cn, en) THEN <<>>
   ELSE <<[e |-> "fin", ok |-> ~cn, done |-> IF Bug = "outcome" THEN TRUE ELSE ~cn]>>)
  \o (IF ~over \/ Bug = "held" THEN <<>> ELSE <<Gone("source")>>)

Do(label, es, cn, en, q, w) ==
  LET rel == m.rel \/ label = "f"
      over == (Stops(cn, en) \/ task = "hook") /\ rel
      fin == finished \/ (over /\ ~(Bug = "abort" /\ cn))
      told(i) == IF Bug = "first" THEN fin /\ i = 1 ELSE IF Bug = "early" THEN fin \/ q > 1 ELSE IF Bug = "hasty" THEN fin \/ cn ELSE fin
      r == Fold(m, es \o TaskEvents(cn, en, over) \o <<[e |-> "st", waits |-> [i \in 1 .. w |-> told(i)]]>>, {})
  IN /\ m' = r[1] /\ viol' = r[2]
     /\ ops' = Append(ops, label)
     /\ cancel' = cn /\ ended' = en /\ waits' = w
     /\ task' = IF over THEN "over" ELSE IF Stops(cn, en) THEN "hook" ELSE task
     /\ finished' = fin
     /\ stored' = IF task = "run" THEN stored + q ELSE stored
     /\ queue' = 0
     /\ UNCHANGED cfg

Give == ~ended /\ Do("d 2", <<[e |-> "give", n |-> 2]>>, cancel, FALSE, 2, waits)
End == ~ended /\ Do("e", <<[e |-> "give", n |-> 0]>>, cancel, TRUE, 0, waits)
\* The finish hook may return from now on
Hook == ~m.rel /\ Do("f", <<[e |-> "rel"]>>, cancel, ended, 0, waits)
Wait == Do("w", <<[e |-> "wait"]>>, cancel, ended, 0, waits + 1)
\* Once the download is over, cancelling has no effect
Cancel == m.held /\ Do("c", <<[e |-> "cancel"]>>, TRUE, ended, 0, waits)
Token == Do("t", <<[e |-> "cancel"]>>, Bug # "token", ended, 0, waits)
Drop == m.held /\ Do("drop", <<[e |-> "drop"]>>, cancel \/ (cfg.cod \/ Bug = "drop"), ended, 0, waits)
Read == /\ m.held /\ stored > m.read
        /\ LET n == stored - m.read
               \* what is there is served until the failure is known
               ok == ~(task = "over" /\ (m.why = "cancelled" \/ cfg.hook = "err")) IN
           Do("r 9", <<[e |-> "rd", n |-> n, ok |-> ok, k |-> IF ok THEN n ELSE 0, good |-> TRUE]>>, cancel, ended, 0, waits)

Next == /\ Len(ops) < MaxOps /\ m.res = "ok"
        /\ Give \/ Hook \/ End \/ Wait \/ Cancel \/ Token \/ Drop \/ Read
Spec == Init /\ [][Next]_vars

NoViolation == viol = {}
\* Handles are told when, and only when, nothing of the download is left
Told == m.res = "ok" => (finished <=> task = "over")
Cases == (Len(ops) = MaxOps \/ m.res # "ok") => PrintT("CASE " \o ToJson([cfg |-> cfg, decs |-> ops]))
=============================================================================
