---------------------------------- MODULE Web ----------------------------------
(***************************************************************************)
(* What a whole stream over HTTP owes its user and the server (C30), for   *)
(* every way of creating one: the reader on top, a server with a resource  *)
(* below. Answers may be cut short, fall silent or be errors.              *)
(*   pos    where the reader stands, op and want its call in progress      *)
(*   faulty an answer after the first was an error                         *)
(*   cut    an answer ended early,  stalled one fell silent                *)
(*   moved  the reader moved,       dead    a call failed for good         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Content(i) == ((i * 37 + 11) % 251) + 1

Initial(c) ==
  [cfg |-> c, mw |-> 0, refused |-> FALSE, n |-> 0, first |-> 0, faulty |-> FALSE, cut |-> FALSE, stalled |-> FALSE,
   moved |-> FALSE, dead |-> FALSE, pos |-> 0, op |-> "", want |-> 0, off |-> 0]

Min(a, b) == IF a < b THEN a ELSE b
Ranges(c) == c.ar \notin {"", "none"}
Lossy(c) == c.store = "ring" \/ (c.store = "adaptive" /\ ~c.sized)

\* Where a seek has to land
Target(m) == CASE m.op = "end" -> m.cfg.len + m.off
               [] m.cfg.sized -> Min(m.off, m.cfg.len)
               [] OTHER -> m.off

Upd(m, e) ==
  CASE e.e = "newc" -> [m EXCEPT !.mw = e.mw, !.refused = e.refused]
    [] e.e = "req" -> [m EXCEPT !.n = @ + 1, !.first = IF m.n = 0 THEN e.st ELSE @,
                                !.faulty = @ \/ (m.n > 0 /\ (e.st = 0 \/ e.st >= 300)),
                                !.cut = @ \/ e.fault = "trunc", !.stalled = @ \/ e.fault = "stall"]
    [] e.e = "rdc" -> [m EXCEPT !.op = "read", !.want = e.n]
    [] e.e = "rd" -> [m EXCEPT !.op = "", !.pos = @ + Len(e.d), !.dead = @ \/ (~e.ok /\ e.kind /= "InvalidInput")]
    [] e.e = "skc" -> [m EXCEPT !.op = e.w, !.off = e.o]
    [] e.e = "sk" -> [m EXCEPT !.op = "", !.moved = TRUE, !.pos = IF e.ok THEN e.p ELSE @,
                               !.dead = @ \/ (~e.ok /\ e.kind /= "InvalidInput")]
    [] OTHER -> m

If(c, v) == IF c THEN {<<"C30", v>>} ELSE {}

ReqViols(m, e) ==
  LET c == m.cfg IN
  If(e.m /= "GET" \/ e.t /= "/file.mp3?x=1", "requests something else")
  \cup If(e.mw /= [i \in 1 .. m.mw |-> i], "a request doesn't pass every default middleware once, in order")
  \cup If(m.n = 0 /\ e.a /= -1, "the first request asks for a range")
  \cup If(m.n > 0 /\ e.a = -1 /\ ~(m.stalled /\ ~Ranges(c)), "asks for the whole resource again")
  \cup If(e.a = -2 \/ e.b = -2, "a malformed range")
  \cup If(e.a >= 0 /\ (e.a > c.len \/ (e.a = c.len /\ c.sized)), "asks for a range beyond the end")
  \cup If(e.a >= 0 /\ e.b >= 0 /\ (e.b < e.a \/ e.b >= c.len), "asks for a range that is no part of the resource")
  \cup If(m.dead, "a request after the download failed")

NewViols(m, e) ==
  LET good == ~m.refused /\ m.first >= 200 /\ m.first < 300 IN
  If(e.ok /= good, "the outcome of the creation is not that of its request")
  \cup If(e.ok /\ e.cl /= (IF m.cfg.sized THEN m.cfg.len ELSE -1), "wrong content length")
  \cup If(~e.ok /\ ~good /\ e.kind /= (IF m.refused \/ m.first = 0 THEN "fetch" ELSE "response"), "wrong kind of creation error")
  \cup If(~e.ok /\ e.kind = "response" /\ ~e.msg, "the creation error doesn't carry the message of the server")

\* The rest may be out of reach: the end of a stream of unknown length came early, or is that of an earlier part
Loses(m) == (~m.cfg.sized /\ (m.cut \/ m.moved)) \/ (Lossy(m.cfg) /\ m.cut)

ReadViols(m, e) ==
  LET left == IF m.pos < m.cfg.len THEN m.cfg.len - m.pos ELSE 0
      all == Min(m.want, left)
      n == Len(e.d)
  IN IF ~e.ok THEN If(~(m.faulty \/ (e.kind = "InvalidInput" /\ ~m.cfg.sized /\ m.moved)), "a read fails although nothing else did")
     ELSE If(m.dead, "reads after the download failed")
          \cup If(n > all \/ \E j \in 1 .. n : e.d[j] /= Content(m.pos + j - 1), "reads other bytes than those of the resource")
          \cup If(n < all /\ ~Loses(m), "a read ends before the end of the resource")

SeekViols(m, e) ==
  IF ~e.ok THEN If(~m.faulty, "a seek fails although nothing else did")
  ELSE If(m.dead, "seeks after the download failed") \cup If(e.p /= Target(m), "a seek lands elsewhere")

Viols(m, e) ==
  CASE e.e = "req" -> ReqViols(m, e)
    [] e.e = "new" -> NewViols(m, e)
    [] e.e = "rd" -> ReadViols(m, e)
    [] e.e = "sk" -> SeekViols(m, e)
    [] e.e = "ended" -> If(~e.ok, "the download goes on after its reader was dropped")
    [] e.e = "hung" -> If(TRUE, "a call hangs")
    [] e.e = "rpanic" -> If(TRUE, "a call panics")
    [] OTHER -> {}
=============================================================================
