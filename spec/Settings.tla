-------------------------------- MODULE Settings --------------------------------
(***************************************************************************)
(* What a stream does as a function of the setter calls that made its      *)
(* settings: the last call of each setter counts, and a default where      *)
(* there is none (C28).                                                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

\* prog, rec: the callback in place, 0 if there is none
Defaults == [pf |-> 262144, bs |-> 4096, rt |-> 5000, cod |-> 1, prog |-> 0, rec |-> 0]
Initial(c) == [s |-> Defaults, stored |-> 0]

Upd(m, e) ==
  CASE e.e = "set" /\ e.k # "" -> [m EXCEPT !.s[e.k] = e.v]
    [] e.e = "offer" -> [m EXCEPT !.stored = @ + e.n]
    [] OTHER -> m

Min(a, b) == IF a < b THEN a ELSE b
\* the callbacks called: only the one in place, and it has been
Only(calls, i) == \A j \in DOMAIN calls : (calls[j] > 0) <=> (j = i)

If(c, v) == IF c THEN {<<"C28", v>>} ELSE {}
Viols(m, e) ==
  LET t == Upd(m, e)
      s == t.s
  IN CASE e.e = "set" ->
            If(e.pf # s.pf \/ e.bs # s.bs, "a getter returns another value than was set")
       [] e.e = "offer" ->
            If(~e.ok, "data was not stored")
            \cup If(e.got /\ t.stored < s.pf, "data was served before the configured prefetch")
            \cup If(~e.got /\ t.stored >= s.pf, "no data was served after the configured prefetch")
            \cup If(~e.good, "a read failed")
            \cup If(e.ok /\ e.max > s.bs, "a write was larger than the configured batch")
            \cup If(e.ok /\ e.max < Min(s.bs, e.n), "no write had the configured size")
            \cup If(e.ok /\ ~Only(e.prog, s.prog), "progress was not reported to the callback that was set last")
       [] e.e = "stall" ->
            If(e.seeks > 0 /\ e.ms < s.rt, "a reconnection before the configured timeout")
            \cup If(e.seeks = 0 /\ e.ms > s.rt, "no reconnection after the configured timeout")
            \cup If(e.seeks > 0 /\ ~Only(e.rec, s.rec), "a reconnection was not reported to the callback that was set last")
       [] e.e = "drop" ->
            If(e.gone /\ s.cod = 0, "dropping the reader ended the download")
            \cup If(~e.gone /\ s.cod = 1, "dropping the reader did not end the download")
       [] e.e = "over" ->
            If(~e.gone \/ e.out # (IF s.cod = 1 THEN "cancelled" ELSE "completed"), "the download ended otherwise than configured")
       [] e.e = "failed" -> If(TRUE, "the stream was not created or got stuck")
       [] OTHER -> {}
=============================================================================
