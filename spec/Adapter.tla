--------------------------------- MODULE Adapter ---------------------------------
(***************************************************************************)
(* What an adapter over an OpenDAL object (C23) or an async reader (C24)   *)
(* may deliver.                                                            *)
(*                                                                         *)
(* An adapter stands at `pos` and delivers the bytes up to `stop`; requests *)
(* move it. The service below it fails or has nothing yet only when the    *)
(* script says so, which the events tell with `fail` and `pend`.           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Content(i) == ((i * 37 + 11) % 251) + 1
If(c, v) == IF c THEN {v} ELSE {}

Initial(c) ==
  [cfg |-> c, live |-> FALSE, pos |-> 0, stop |-> 0, op |-> "", s |-> 0, en |-> -1,
   loose |-> FALSE,     \* a read failed since the last request: the rest may be missing
   ended |-> FALSE]

Seekable(m) == m.cfg.kind = "opendal"
P(m) == IF Seekable(m) THEN "C23" ELSE "C24"
MaxChunk(m) == IF ~Seekable(m) THEN 1000000 ELSE IF m.cfg.chunk = 0 THEN 4096 ELSE m.cfg.chunk
Length(m) == IF ~Seekable(m) THEN m.cfg.len ELSE IF m.cfg.size = 0 THEN -1 ELSE m.cfg.size

Upd(m, e) ==
  CASE e.e = "new" -> [m EXCEPT !.live = e.ok, !.pos = 0, !.stop = m.cfg.size]
    [] e.e \in {"skc", "rcc"} -> [m EXCEPT !.op = e.e, !.s = e.s, !.en = e.en]
    [] e.e = "opr" -> IF e.ok
         THEN [m EXCEPT !.op = "", !.pos = m.s, !.loose = FALSE, !.ended = FALSE,
                        !.stop = IF m.en >= 0 /\ m.en < m.cfg.size THEN m.en ELSE m.cfg.size]
         ELSE [m EXCEPT !.op = ""]
    [] e.e = "it" -> [m EXCEPT !.pos = @ + Len(e.d), !.loose = @ \/ e.kind = "err",
                               !.ended = @ \/ e.kind = "end"]
    [] OTHER -> m

NewViols(m, e) ==
  If(e.ok = e.fail, <<P(m), "creation succeeds although the service failed, or the other way around">>)
  \cup If(e.ok /\ e.cl /= Length(m), <<P(m), "wrong content length">>)
  \cup If(e.ok /\ e.sk /= Seekable(m), <<P(m), "wrong answer to whether seeking is supported">>)
  \cup If(e.ok /\ Seekable(m) /\ e.ct /= m.cfg.ct, <<P(m), "wrong content type">>)

OpViols(m, e) ==
  IF Seekable(m)
  THEN If(e.ok /\ e.fail, <<"C23", "a request succeeds although the service failed">>)
       \cup If(~e.ok /\ ~e.fail, <<"C23", "a request fails although the service did not">>)
  ELSE If(e.ok \/ ~e.uns, <<"C24", "an async reader accepts a request for a position">>)

ItemViols(m, e) ==
  LET n == Len(e.d)
      exact == /\ m.pos + n <= m.stop
               /\ \A j \in 1 .. n : e.d[j] = Content(m.pos + j - 1)
  IN If(~exact, <<P(m), "delivers other bytes than the next ones">>)
     \cup If(exact /\ m.ended /\ n > 0, <<P(m), "delivers bytes after the end">>)
     \cup If(e.kind = "data" /\ n = 0, <<P(m), "delivers an empty chunk">>)
     \cup If(n > MaxChunk(m), <<P(m), "delivers a chunk larger than configured">>)
     \cup If(e.kind = "end" /\ m.pos < m.stop /\ ~m.loose, <<P(m), "ends too early">>)
     \cup If(e.kind = "err" /\ ~e.fail, <<P(m), "fails although the service did not">>)
     \cup If(e.kind = "end" /\ e.fail, <<P(m), "the end is reported instead of a failure">>)
     \cup If(e.kind = "pending" /\ ~e.pend, <<P(m), "waits for nothing">>)

Viols(m, e) ==
  CASE e.e = "new" -> NewViols(m, e)
    [] e.e = "opr" -> OpViols(m, e)
    [] e.e = "it" -> ItemViols(m, e)
    [] e.e = "rpanic" -> {<<P(m), "an operation panics">>}
    [] OTHER -> {}
=============================================================================
