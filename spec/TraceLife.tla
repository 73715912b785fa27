-------------------------------- MODULE TraceLife --------------------------------
(* Folds Life over a file of recorded traces, each starting with a `reset`    *)
(* event that carries the configuration. Every obligation broken by an event *)
(* is collected in `bad` with the scenario and the line.                     *)
EXTENDS Life, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, m, sid, bad, cnt
vars == <<i, m, sid, bad, cnt>>

Init == /\ i = 1
        /\ m = Initial(Log[1])
        /\ sid = Log[1].sid
        /\ bad = {}
        /\ cnt = 0

Event == Log[i]

Next == /\ i < Len(Log)
        /\ i' = i + 1
        /\ LET e == Log[i + 1] IN
           IF e.e = "reset"
           THEN m' = Initial(e) /\ sid' = e.sid /\ bad' = bad /\ cnt' = cnt + 1
           ELSE /\ m' = Upd(m, e)
                /\ sid' = sid
                /\ cnt' = cnt
                /\ LET v == Viols(m, e) IN
                   bad' = bad \cup {[p |-> x[1], w |-> x[2], sid |-> sid, line |-> i + 1] : x \in v}

Spec == Init /\ [][Next]_vars

Pos == i

\* Evaluated once the whole trace is consumed
Report == i = Len(Log) => PrintT("REPORT " \o ToJson([n |-> Len(Log), scenarios |-> cnt + 1, bad |-> bad]))

Accepted == TLCGet("stats").diameter = Len(Log)
=============================================================================
