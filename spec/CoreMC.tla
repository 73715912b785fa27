--------------------------------- MODULE CoreMC ---------------------------------
(* Configurations of Core *)
EXTENDS Core

Base == [kind |-> "mem", len |-> 3, cl |-> 3, sk |-> TRUE, pf |-> 0, bs |-> 2, rt |-> 2 * HalfRt, cap |-> 0 - 1, bufcap |-> 1,
         lim |-> FALSE, cod |-> TRUE, accept |-> 0, wfail |-> 0 - 1, fin |-> "pass", cbc |-> 0 - 1, cbp |-> 0 - 1, rs |-> 1]
Flat == {[Base EXCEPT !.pf = p, !.cl = c, !.sk = sk] : p \in {0, 2}, c \in {3, 0 - 1}, sk \in BOOLEAN}
FlatKnown == {[Base EXCEPT !.pf = p] : p \in {0, 2}}
FlatUnknown == {[Base EXCEPT !.pf = p, !.cl = 0 - 1] : p \in {0, 2}}
Unseek == {[Base EXCEPT !.cl = c, !.sk = FALSE, !.pf = p] : c \in {3, 0 - 1}, p \in {0, 2}}
RingOf(cap) == [Base EXCEPT !.kind = "bmem", !.cap = cap, !.bufcap = cap, !.lim = TRUE, !.len = 4, !.cl = 4]
RingCfg == {[RingOf(2) EXCEPT !.pf = p, !.cl = c] : p \in {0, 1}, c \in {4, 0 - 1}}
RingOne == {[RingOf(2) EXCEPT !.len = 5, !.cl = 5]}
RingLong == {[RingOf(3) EXCEPT !.len = 5, !.cl = 0 - 1, !.bs = 3]}
Failing_ == {[Base EXCEPT !.fin = f, !.wfail = w, !.len = 2, !.cl = 2] : f \in {"pass", "err"}, w \in {0 - 1, 1}}
OneFlat == {[Base EXCEPT !.len = 2, !.cl = 2, !.pf = p] : p \in {0, 2}}
Small == {[Base EXCEPT !.len = 2, !.cl = 2, !.bs = 1]}
SmallPf == {[Base EXCEPT !.len = 2, !.cl = 2, !.pf = p] : p \in {0, 1, 2}}

Batch == {[Base EXCEPT !.bs = b, !.accept = a, !.pf = p] : b \in {1, 2}, a \in {0, 1}, p \in {0, 2}}

\* For schedules
GenRing_ == {[RingOf(2) EXCEPT !.len = 3, !.cl = 0 - 1]}
GenUnseek_ == {[Base EXCEPT !.len = 2, !.cl = c, !.sk = FALSE] : c \in {2, 0 - 1}}
GenFault_ == {[Base EXCEPT !.fin = f, !.len = 2, !.cl = 2, !.wfail = IF f = "err" THEN 0 - 1 ELSE 1] : f \in {"pass", "err"}}
GenAhead_ == {[RingOf(2) EXCEPT !.cl = 0 - 1]}

Reads1 == {1}
SeekAhead == {<<"c", 2>>}
Reads12 == {1, 2}
Reads2 == {2}
Reads013 == {0, 1, 3}
SeekAll == {<<"s", 0>>, <<"s", 1>>, <<"s", 2>>, <<"s", 3>>}
SeekFew == {<<"s", 0>>, <<"s", 2>>}
SeekMix == {<<"s", 0>>, <<"c", 2>>, <<"c", 0 - 2>>, <<"e", 0 - 1>>, <<"s", 9>>}
SeekRing == {<<"s", 0>>, <<"c", 2>>, <<"c", 0 - 1>>}
NoSeeks == {}
=============================================================================
