---------------------------------- MODULE Http ----------------------------------
(***************************************************************************)
(* What an HTTP stream may ask of a server and may deliver (C20, C21).     *)
(*                                                                         *)
(* The monitor follows the operations on the stream (creation, seek,       *)
(* reconnect, polling), the requests the server received in between and    *)
(* what each of them was answered with.                                    *)
(*   cur   the response whose body the stream has to deliver from `off` on *)
(*   op    the operation in progress, reqs the requests it made            *)
(*   plan  what that operation has to ask for                              *)
(* Positions and lengths may be too large for a number here, so they are   *)
(* compared as the text that is on the wire (cls, ss, es, ps).             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Empty == [n |-> 0, off |-> 0, len |-> 0, trunc |-> FALSE]

Initial(c) ==
  [cfg |-> c, cl |-> -1, cls |-> "", op |-> "", plan |-> [count |-> 0, range |-> "", skip |-> 0],
   reqs |-> <<>>, cur |-> Empty, live |-> FALSE, failed |-> FALSE, refused |-> FALSE]

\* Byte i of the body of response n
Body(n, i) == ((n * 53 + i * 7) % 250) + 1
Min(a, b) == IF a < b THEN a ELSE b

Ranges(m) == m.cfg.ar \notin {"", "none"}

\* A range request, unless it would start at the known end
RangePlan(m, ss, es) ==
  IF m.cl >= 0 /\ ss = m.cls
  THEN [count |-> 0, range |-> "", skip |-> 0]
  ELSE [count |-> 1, range |-> "bytes=" \o ss \o "-" \o es, skip |-> 0]

PlainPlan(m, p) == [count |-> 1, range |-> "", skip |-> IF m.cl >= 0 THEN p ELSE 0]

Good(q) == q.st < 400 /\ ~q.cut

\* The operation got what it needs
Succeeds(m) == CASE m.refused -> FALSE
                 [] m.plan.count = 0 -> TRUE
                 [] m.reqs = <<>> -> FALSE
                 [] OTHER -> Good(m.reqs[Len(m.reqs)])

After(m) == IF m.plan.count = 0 \/ m.reqs = <<>> THEN Empty
            ELSE LET q == m.reqs[Len(m.reqs)]
                 IN [n |-> q.n, off |-> Min(m.plan.skip, q.len), len |-> q.len, trunc |-> q.trunc]

Begin(m, op, plan) == [m EXCEPT !.op = op, !.plan = plan, !.reqs = <<>>]
End(m, ok) ==
  IF ok THEN [m EXCEPT !.op = "", !.cur = After(m), !.live = TRUE, !.failed = FALSE]
        ELSE [m EXCEPT !.op = ""]

Upd(m, e) ==
  CASE e.e = "newc" -> [Begin(m, "new", [count |-> 1, range |-> "", skip |-> 0]) EXCEPT !.refused = e.refused]
    [] e.e = "skc" -> [Begin(m, "seek", RangePlan(m, e.ss, e.es)) EXCEPT !.refused = FALSE]
    [] e.e = "rcc" -> [Begin(m, "rc", IF Ranges(m) THEN RangePlan(m, e.ps, "") ELSE PlainPlan(m, e.p))
                        EXCEPT !.refused = FALSE]
    [] e.e = "req" -> [m EXCEPT !.reqs = Append(m.reqs, e)]
    [] e.e = "new" -> IF e.ok /\ m.reqs /= <<>>
                      THEN [End(m, TRUE) EXCEPT !.cl = m.reqs[Len(m.reqs)].cl, !.cls = m.reqs[Len(m.reqs)].cls] ELSE End(m, FALSE)
    [] e.e \in {"skr", "rcr"} -> End(m, e.ok)
    [] e.e = "it" -> [m EXCEPT !.cur.off = @ + Len(e.d), !.failed = m.failed \/ e.err]
    [] OTHER -> m

If(c, v) == IF c THEN {v} ELSE {}

ReqViols(m, e) ==
  If(m.op = "", <<"C20", "a request without an operation">>)
  \cup If(m.op /= "" /\ Len(m.reqs) >= m.plan.count, <<"C20", "more requests than needed">>)
  \cup If(e.m /= "GET", <<"C20", "not a GET request">>)
  \cup If(e.t /= m.cfg.target, <<"C20", "requests another URL">>)
  \cup If(m.op /= "" /\ e.range /= m.plan.range, <<"C20", "requests other bytes than needed">>)

OpViols(m, e) ==
  LET last == m.reqs[Len(m.reqs)] IN
  If(~m.refused /\ Len(m.reqs) < m.plan.count, <<"C20", "an operation made no request">>)
  \cup If(e.ok /\ ~Succeeds(m), <<"C21", "an operation succeeds although its request failed">>)
  \cup If(~e.ok /\ Succeeds(m), <<"C21", "an operation fails although its request succeeded">>)
  \cup If(~e.ok /\ m.reqs /= <<>> /\ last.st >= 400 /\ ~last.cut /\ ~e.msg,
          <<"C21", "the error doesn't carry the message of the server">>)

NewViols(m, e) ==
  LET last == m.reqs[Len(m.reqs)]
      answered == m.reqs /= <<>> /\ ~last.cut
  IN OpViols(m, e)
     \cup If(~e.ok /\ answered /\ e.kind /= "response", <<"C21", "an error response is reported as a failed request">>)
     \cup If(~e.ok /\ ~answered /\ e.kind /= "fetch", <<"C21", "a failed request is reported as an error response">>)

InfoViols(m, e) ==
  If(e.cl /= m.cl \/ e.cls /= m.cls, <<"C21", "wrong content length">>)
  \cup If(e.ct /= m.cfg.cttext, <<"C21", "wrong content type">>)
  \cup If(e.xh /= m.cfg.xhtext, <<"C21", "wrong value of a header">>)
  \cup If(e.ar /= m.cfg.ar, <<"C21", "wrong value of the Accept-Ranges header">>)
  \cup If(~e.no, <<"C21", "a missing header has a value">>)
  \cup If(~e.sk, <<"C20", "an HTTP stream doesn't support seeking">>)

ItemViols(m, e) ==
  LET c == m.cur
      n == Len(e.d)
      exact == n <= c.len - c.off /\ \A j \in 1 .. n : e.d[j] = Body(c.n, c.off + j - 1)
  IN If(~exact, <<"C21", "delivers bytes that are not the content of the response">>)
     \cup If(exact /\ e.end /\ ~m.failed /\ (c.trunc \/ c.off + n < c.len),
             <<"C21", "ends before the end of the response">>)
     \cup If(e.err /\ ~c.trunc, <<"C21", "fails although the response is complete">>)

Viols(m, e) ==
  CASE e.e = "req" -> ReqViols(m, e)
    [] e.e = "new" -> NewViols(m, e)
    [] e.e \in {"skr", "rcr"} -> OpViols(m, e)
    [] e.e = "info" -> InfoViols(m, e)
    [] e.e = "it" -> ItemViols(m, e)
    [] e.e = "hung" -> {<<"C21", "an operation hangs">>}
    [] e.e = "rpanic" -> {<<"C21", "an operation panics">>}
    [] OTHER -> {}
=============================================================================
