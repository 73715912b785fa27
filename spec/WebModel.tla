-------------------------------- MODULE WebModel --------------------------------
(***************************************************************************)
(* A design of the whole stream over HTTP, checked against the obligations *)
(* of Web: a download that follows what the reader waits for, a server     *)
(* whose answers end early, fall silent or are errors. Every combination   *)
(* of calls and answers within the bounds becomes a test of the real code. *)
(***************************************************************************)
EXTENDS Web, TLC, Json

CONSTANTS Len0, Sized, Ar, MaxOps, MaxAns, Cuts, Bug

VARIABLES m, dl, stored, rd, pos, ans, ops, viol
vars == <<m, dl, stored, rd, pos, ans, ops, viol>>

Cfg == [len |-> Len0, sized |-> Sized, ar |-> Ar, store |-> "mem"]

RECURSIVE Fold(_, _, _)
Fold(x, es, vs) == IF es = <<>> THEN <<x, vs>>
                   ELSE Fold(Upd(x, es[1]), Tail(es), vs \cup Viols(x, es[1]))
Play(es) == LET r == Fold(m, es, {}) IN m' = r[1] /\ viol' = viol \cup r[2]

Kinds == {"full", "500", "cut"} \cup {"trunc:" \o ToString(k) : k \in Cuts}
         \cup (IF Sized \/ Ranges(Cfg) THEN {"stall:" \o ToString(k) : k \in Cuts} ELSE {})
Trunc(a) == \E k \in Cuts : a = "trunc:" \o ToString(k)
Stall(a) == \E k \in Cuts : a = "stall:" \o ToString(k)
After(a) == CHOOSE k \in Cuts : a \in {"trunc:" \o ToString(k), "stall:" \o ToString(k)}

\* The server answers as it likes, and in full in the end
Answer(a) == a \in IF Len(ans) < MaxAns THEN Kinds ELSE {"full"}

\* A request for [a, b) (a = -1: everything) and what it is answered with
Request(a, b, x) ==
  LET st == CASE x = "500" -> 500 [] x = "cut" -> 0 [] a >= Len0 /\ a > 0 -> 416 [] a >= 0 -> 206 [] OTHER -> 200
      from == IF a < 0 THEN 0 ELSE a
      to == IF b < 0 THEN Len0 ELSE b
      ok == st \in {200, 206}
      bad == ok /\ from < to /\ (Trunc(x) \/ Stall(x))
      sent == IF bad THEN Min(After(x), to - from - 1) ELSE to - from
  IN [ok |-> ok, from |-> from, stop |-> from + sent, silent |-> bad /\ Stall(x),
      e |-> [e |-> "req", m |-> "GET", t |-> "/file.mp3?x=1", a |-> a, b |-> IF b < 0 THEN -1 ELSE b - (IF Bug = "inclusive" THEN 0 ELSE 1),
             st |-> st, mw |-> <<>>, fault |-> IF ~bad THEN "" ELSE IF Stall(x) THEN "stall" ELSE "trunc"]]

\* st: run, silent (the answer doesn't go on), done, failed
Running(r, at) == [st |-> "run", at |-> at, stop |-> r.stop, silent |-> r.silent]
Ended(s) == [dl EXCEPT !.st = s]

Init ==
  \E x \in Kinds : LET r == Request(-1, -1, x)
                       f == Fold(Initial(Cfg), <<[e |-> "newc", mw |-> 0, refused |-> FALSE], r.e,
                                                 [e |-> "new", ok |-> r.ok, cl |-> IF Sized THEN Len0 ELSE -1,
                                                  kind |-> IF x = "cut" THEN "fetch" ELSE "response", msg |-> TRUE]>>, {})
                   IN /\ m = f[1] /\ viol = f[2]
                      /\ dl = IF r.ok THEN Running(r, 0) ELSE [st |-> "none", at |-> 0, stop |-> 0, silent |-> FALSE]
                      /\ ans = <<x>>
                      /\ stored = {} /\ rd = "idle" /\ pos = 0 /\ ops = <<>>

Deliver == /\ dl.st = "run" /\ dl.at < dl.stop
           /\ stored' = stored \cup {dl.at}
           /\ dl' = [dl EXCEPT !.at = @ + 1]
           /\ UNCHANGED <<m, rd, pos, ans, ops, viol>>

Missing == (0 .. Len0 - 1) \ stored
Least(s) == CHOOSE i \in s : \A j \in s : i <= j
\* The end of the gap that starts at i
GapEnd(i) == IF \E j \in stored : j > i THEN Least({j \in stored : j > i}) ELSE Len0

\* What the reader waits for and isn't there
Wanted == IF rd = "idle" THEN {}
          ELSE IF rd = "seek" THEN {pos} \cap Missing
          ELSE (pos .. Min(pos + m.want, Len0) - 1) \cap Missing

Ask(a, b, x) == LET r == Request(a, b, x) IN
  /\ Answer(x) /\ ans' = Append(ans, x)
  /\ Play(<<r.e>>)
  /\ dl' = IF r.ok THEN Running(r, r.from) ELSE Ended("failed")
  /\ UNCHANGED <<stored, rd, pos, ops>>

\* The answer is over
Over == /\ dl.st = "run" /\ dl.at = dl.stop /\ ~dl.silent
        /\ IF Sized /\ Missing /= {} /\ Bug /= "nogaps"
           THEN LET s == IF Wanted /= {} THEN Least(Wanted) ELSE Least(Missing) IN \E x \in Kinds : Ask(s, GapEnd(s), x)
           ELSE /\ dl' = Ended("done")
                /\ UNCHANGED <<m, stored, rd, pos, ans, ops, viol>>

\* After a while without data
Reconnect ==
  /\ dl.st = "run" /\ dl.at = dl.stop /\ dl.silent
  /\ \E x \in Kinds :
       LET r == IF Ranges(Cfg) THEN Request(dl.at, -1, x) ELSE Request(-1, -1, x)
       IN /\ Answer(x) /\ ans' = Append(ans, x)
          /\ Play(<<r.e>>)
          \* the start of a complete answer is skipped
          /\ dl' = IF ~r.ok THEN dl
                   ELSE IF Ranges(Cfg) \/ Bug = "restart" THEN [Running(r, dl.at) EXCEPT !.stop = dl.at + (r.stop - r.from)]
                   ELSE [Running(r, dl.at) EXCEPT !.stop = IF r.stop < dl.at THEN dl.at ELSE r.stop]
          /\ UNCHANGED <<stored, rd, pos, ops>>

\* The reader needs what the download isn't about to deliver
Follow == /\ dl.st = "run" /\ rd /= "idle" /\ Wanted /= {} /\ Least(Wanted) /= dl.at
          /\ LET s == Least(Wanted) IN \E x \in Kinds : Ask(s, IF Sized THEN GapEnd(s) ELSE -1, x)

More == dl.st \notin {"none"} /\ rd = "idle" /\ Len(ops) < MaxOps

\* A download that failed fails every call at once
Call(call, n, kind, p, op) ==
  /\ More
  /\ ops' = Append(ops, op)
  /\ Play(<<call>> \o (IF dl.st = "failed" /\ Bug /= "deaf"
                       THEN <<IF kind = "read" THEN [e |-> "rd", ok |-> FALSE, d |-> <<>>, kind |-> "Other"]
                              ELSE [e |-> "sk", ok |-> FALSE, p |-> 0, kind |-> "Other"]>> ELSE <<>>))
  /\ rd' = IF dl.st = "failed" /\ Bug /= "deaf" THEN "idle" ELSE kind
  /\ pos' = IF dl.st = "failed" THEN pos ELSE p
  /\ UNCHANGED <<dl, stored, ans>>

Read == \E n \in {1, 2, 9} : Call([e |-> "rdc", n |-> n], n, "read", pos, "read " \o ToString(n))
SeekStart == \E p \in 0 .. (IF Sized THEN Len0 + 1 ELSE Len0 - 1) :
  Call([e |-> "skc", w |-> "start", o |-> p], p, "seek", IF Sized THEN Min(p, Len0) ELSE p, "start " \o ToString(p))
SeekEnd == /\ Sized
           /\ \E k \in 0 .. 1 : Call([e |-> "skc", w |-> "end", o |-> -k], k, "seek", Len0 - k, "end -" \o ToString(k))

Return ==
  /\ rd /= "idle" /\ (Wanted = {} \/ dl.st \in {"done", "failed"})
  /\ LET here == {n \in 0 .. Min(m.want, Len0 - Min(pos, Len0)) : \A j \in pos .. pos + n - 1 : j \in stored}
         n == CHOOSE k \in here : \A j \in here : j <= k
         fail == dl.st = "failed" /\ Bug /= "deaf"
         gap == n = 0 /\ rd = "read" /\ \E j \in stored : j > pos
     IN /\ Play(IF rd = "seek"
                THEN <<[e |-> "sk", ok |-> ~fail, p |-> pos, kind |-> IF fail THEN "Other" ELSE ""]>>
                ELSE IF fail THEN <<[e |-> "rd", ok |-> FALSE, d |-> <<>>, kind |-> "Other"]>>
                ELSE IF gap THEN <<[e |-> "rd", ok |-> FALSE, d |-> <<>>, kind |-> "InvalidInput"]>>
                ELSE <<[e |-> "rd", ok |-> TRUE, d |-> [j \in 1 .. n |-> Content(pos + j - 1)], kind |-> ""]>>)
        /\ pos' = IF rd = "read" /\ ~fail THEN pos + n ELSE pos
        /\ rd' = "idle"
        /\ UNCHANGED <<dl, stored, ans, ops>>

Next == Deliver \/ Over \/ Reconnect \/ Follow \/ Read \/ SeekStart \/ SeekEnd \/ Return
Spec == Init /\ [][Next]_vars

NoViolation == viol = {}
\* Nothing else happens unless it failed or was cut: what was stored is all there is
Complete == dl.st = "done" /\ Sized => Missing = {}
\* A call in progress is always about to return, or the download goes on
Going == rd /= "idle" => ENABLED Next

Final == dl.st = "none" \/ (rd = "idle" /\ Len(ops) = MaxOps)
Cases == Final => PrintT("CASE " \o ToJson([cfg |-> [len |-> Len0, sized |-> Sized, ar |-> Ar, ans |-> ans], decs |-> ops]))
=============================================================================
