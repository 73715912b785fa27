------------------------------ MODULE ProcessModel ------------------------------
(***************************************************************************)
(* A design of a process stream: the user, the download task and the last  *)
(* program of the pipeline. TLC explores every interleaving of them within *)
(* the bounds and checks the obligations of Process, that a download that  *)
(* is over has no child and no files, and that every download ends once it *)
(* can. Each sequence of the user's operations becomes a test with real    *)
(* programs.                                                               *)
(***************************************************************************)
EXTENDS Process, TLC, Json

\* 99 stands for none in Fails and Missings
CONSTANTS Sources, Filters, MaxFilters, Fails, Stderrs, Missings, Bug

VARIABLES m, child, task, files, got, handle, hist, viol
vars == <<m, child, task, files, got, handle, hist, viol>>

S(k, n) == [k |-> k, n |-> n]
AllStages == [gen0 |-> S("gen", 0), gen9 |-> S("gen", 9), bad9 |-> S("genfail", 9), hang9 |-> S("hang", 9),
              cat |-> S("cat", 0), inc |-> S("inc", 0), head5 |-> S("head", 5), head0 |-> S("head", 0),
              fail |-> S("fail", 0), stay |-> S("stay", 0), linger |-> S("linger", 0), flood |-> S("flood", 0)]
Pipelines == UNION {{<<AllStages[s]>> \o [j \in 1 .. k |-> AllStages[f[j]]] : s \in Sources, f \in [1 .. k -> Filters]}
                    : k \in 0 .. MaxFilters}
None(x) == IF x = 99 THEN -1 ELSE x
Cfgs == {[stages |-> p, stderr |-> x, missing |-> None(ms), cod |-> c, prefetch |-> 4, fail |-> None(fl), refuse |-> r, single |-> TRUE] :
           p \in Pipelines, x \in Stderrs, ms \in Missings, c \in BOOLEAN, fl \in Fails, r \in {FALSE}}

Out == m.out
Files == IF m.cfg.stderr = "file" THEN Len(m.cfg.stages) ELSE 0

Init == \E c \in {c \in Cfgs : c.missing < Len(c.stages)} :
          /\ m = Initial(c)
          /\ child = "none" /\ task = "none" /\ files = 0 /\ got = 0 /\ handle = FALSE
          /\ hist = <<>> /\ viol = {}

Past(x) == \E k \in DOMAIN hist : hist[k] = x
Event(e, label) == /\ viol' = Viols(m, e)
                   /\ m' = Upd(m, e)
                   /\ hist' = Append(hist, label)
State == IF child \in {"none", "reaped"} THEN "gone" ELSE IF child \in {"exited", "killed"} THEN "zombie" ELSE "running"

Spawn == /\ m.st = "new"
         /\ LET ok == m.cfg.missing < 0 IN
            /\ files' = IF ok THEN Files ELSE 0
            /\ child' = IF ok THEN "running" ELSE "none"
            /\ Event([e |-> "spawn", ok |-> ok, files |-> files'], "spawn")
         /\ UNCHANGED <<task, got, handle>>
Create == /\ m.st = "spawned"
          /\ task' = "running" /\ handle' = TRUE
          /\ Event([e |-> "create", ok |-> TRUE], "create")
          /\ UNCHANGED <<child, files, got>>

\* Operations on the reader; the amount is what's left at most, or goes past the end of an output that ends
Over == task = "done" /\ ~Failing(m) /\ ~m.cancelled
Read == /\ m.st = "streaming" /\ handle /\ ~m.cancelled /\ ~Failing(m) /\ Len(hist) < 4 \* two reads at most
        /\ \E w \in {3, Out.n, Out.n + 5} :
             /\ w > 0
             /\ (Out.ends /\ Over) \/ (got + w <= Out.n /\ Out.n >= m.cfg.prefetch)
             /\ LET n == Min(w, Out.n - got) IN
                /\ got' = got + n
                /\ Event([e |-> "rd", p |-> got, w |-> w, n |-> n, shift |-> IF n = 0 THEN -1 ELSE Out.shift,
                          end |-> w > n, err |-> FALSE], "read " \o ToString(w))
        /\ UNCHANGED <<child, task, files, handle>>
Cancel == /\ m.st = "streaming" /\ handle /\ ~m.cancelled
          /\ Event([e |-> "cancel"], "cancel")
          /\ UNCHANGED <<child, task, files, got, handle>>
Drop == /\ m.st \in {"spawned", "streaming"} /\ (m.st = "streaming" => handle)
        /\ Event([e |-> "drop", what |-> IF m.st = "spawned" THEN "params" ELSE "reader"], "drop")
        /\ handle' = FALSE
        /\ IF m.st = "spawned"
           THEN /\ files' = 0
                /\ child' = IF child = "running" THEN (IF Bug = "nokill" THEN "running" ELSE "killed") ELSE child
           ELSE UNCHANGED <<child, files>>
        /\ UNCHANGED <<task, got>>
Wait == /\ m.st = "streaming" /\ task = "done" /\ ~Past("wait")
        /\ Event([e |-> "waited", last |-> State, files |-> files], "wait")
        /\ UNCHANGED <<child, task, files, got, handle>>
Settled == (m.st = "streaming" /\ task = "done") \/ m.st = "dropped"
Settle == /\ Settled
          /\ Event([e |-> "settled", last |-> State, files |-> files], "settle")
          /\ UNCHANGED <<child, task, files, got, handle>>

\* What happens by itself
Same == UNCHANGED <<m, got, handle, hist, viol>>
ChildExit == /\ child = "running" /\ Out.ends
             /\ child' = "exited" /\ UNCHANGED <<task, files>> /\ Same
\* The task sees the end of the output, which may come before the end of the program
Eof == /\ task = "running" /\ Out.ends /\ ~Failing(m)
       /\ task' = "waiting" /\ UNCHANGED <<child, files>> /\ Same
Fail == /\ task = "running" /\ Failing(m)
        /\ task' = "killing" /\ UNCHANGED <<child, files>> /\ Same
Stop == /\ task = "running" /\ m.cancelled
        /\ task' = "killing" /\ UNCHANGED <<child, files>> /\ Same
Reap == /\ task = "waiting" /\ (child = "exited" \/ Bug = "nowait")
        /\ task' = "done" /\ child' = (IF Bug = "nowait" THEN child ELSE "reaped")
        /\ files' = (IF Bug = "files" THEN files ELSE 0) /\ Same
Kill == /\ task = "killing"
        /\ task' = "done" /\ child' = (IF Bug = "noreap" THEN "killed" ELSE "reaped") /\ files' = 0 /\ Same

Internal == ChildExit \/ Eof \/ Fail \/ Stop \/ Reap \/ Kill
User == ~Past("settle") /\ (Spawn \/ Create \/ Read \/ Cancel \/ Drop \/ Wait \/ Settle)
Next == User \/ Internal
Spec == Init /\ [][Next]_vars /\ WF_vars(Internal)

NoViolation == viol = {}
Clean == task = "done" => child = "reaped" /\ files = 0
Killed == m.st = "dropped" => child /= "running"
\* A download that can end or was stopped ends
CanEnd == task = "running" /\ (Out.ends \/ m.cancelled \/ Failing(m))
Ends == CanEnd ~> task = "done"

\* The case is complete when its last operation is the final one
Short == Len(hist) <= 5
Strip(c) == [c EXCEPT !.stages = [j \in DOMAIN c.stages |-> c.stages[j].k \o " " \o ToString(c.stages[j].n)]]
Cases == (hist /= <<>> /\ hist[Len(hist)] = "settle") => PrintT("CASE " \o ToJson([cfg |-> Strip(m.cfg), decs |-> hist]))
=============================================================================
