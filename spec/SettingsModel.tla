------------------------------ MODULE SettingsModel ------------------------------
(***************************************************************************)
(* A design of the settings and of what the download does with them: a     *)
(* record copied by each setter, a prefetch gate, batches, a stall clock   *)
(* that restarts with each piece, a cancellation by the dropped reader.    *)
(* TLC makes every series of setter calls within the bounds, runs the same *)
(* probe after each and judges it with Settings. Every series becomes a    *)
(* test of the real code.                                                  *)
(***************************************************************************)
EXTENDS Settings, TLC, Json

CONSTANTS MaxCalls, Bug

VARIABLES m, own, calls, task, viol
vars == <<m, own, calls, task, viol>>

Values == [pf |-> {1000, 50000}, bs |-> {500, 5000}, rt |-> {700, 9000}, cod |-> {0, 1}, prog |-> {1, 2}, rec |-> {1, 2}]
Keys == DOMAIN Values

Step(e) == m' = Upd(m, e) /\ viol' = viol \cup Viols(m, e)

Init == /\ m = Initial(0) /\ own = Defaults /\ calls = <<>> /\ viol = {}
        /\ task = [at |-> "build", stored |-> 0, clock |-> 0, seeks |-> 0, cancelled |-> FALSE]

Set(k, v) ==
  /\ task.at = "build" /\ Len(calls) < MaxCalls
  /\ own' = CASE Bug = "forget" /\ k = "rt" -> [Defaults EXCEPT ![k] = v]
              [] Bug = "first" /\ k = "prog" /\ own[k] # 0 -> own
              [] OTHER -> [own EXCEPT ![k] = v]
  /\ calls' = Append(calls, k \o " " \o ToString(v))
  /\ Step([e |-> "set", k |-> k, v |-> v, pf |-> own'.pf, bs |-> own'.bs])
  /\ UNCHANGED task

Begin == task.at = "build" /\ task' = [task EXCEPT !.at = "short"] /\ UNCHANGED <<m, own, calls, viol>>

Calls(i) == <<IF i = 1 THEN 1 ELSE 0, IF i = 2 THEN 1 ELSE 0>>
Batch == IF Bug = "batch" THEN own.bs + 1 ELSE own.bs
Offer(at, n, next) ==
  /\ task.at = at
  /\ LET stored == task.stored + n IN
     /\ task' = [task EXCEPT !.at = next, !.stored = stored, !.clock = 0]
     /\ Step([e |-> "offer", n |-> n, ok |-> TRUE, good |-> TRUE,
              got |-> IF Bug = "gate" THEN stored > own.pf ELSE stored >= own.pf,
              max |-> Min(Batch, n), prog |-> Calls(own.prog)])
     /\ UNCHANGED <<own, calls>>

Stall(at, by, next) ==
  /\ task.at = at
  /\ LET clock == task.clock + by
         seeks == IF clock >= (IF Bug = "clock" THEN Defaults.rt ELSE own.rt) THEN 1 ELSE 0 IN
     /\ task' = [task EXCEPT !.at = next, !.clock = clock]
     /\ Step([e |-> "stall", ms |-> clock, seeks |-> seeks, rec |-> IF seeks = 1 THEN Calls(own.rec) ELSE Calls(0)])
     /\ UNCHANGED <<own, calls>>

Drop == /\ task.at = "drop"
        /\ task' = [task EXCEPT !.at = "end", !.cancelled = (own.cod = 1)]
        /\ Step([e |-> "drop", gone |-> own.cod = 1])
        /\ UNCHANGED <<own, calls>>
End == /\ task.at = "end"
       /\ task' = [task EXCEPT !.at = "over"]
       /\ Step([e |-> "over", gone |-> TRUE, out |-> IF task.cancelled THEN "cancelled" ELSE "completed"])
       /\ UNCHANGED <<own, calls>>

Next == \/ \E k \in Keys : \E v \in Values[k] : Set(k, v)
        \/ Begin
        \/ Offer("short", m.s.pf - 1, "last") \/ Offer("last", 1, "more") \/ Offer("more", 2 * m.s.bs + 1, "wait")
        \/ Stall("wait", m.s.rt - 1, "late") \/ Stall("late", 2, "drop")
        \/ Drop \/ End
Spec == Init /\ [][Next]_vars

NoViolation == viol = {}
Cases == task.at = "short" =>
           PrintT("CASE " \o ToJson([cfg |-> [new |-> Len(calls) % 2 = 1], decs |-> Append(calls, "run")]))
=============================================================================
