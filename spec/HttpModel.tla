-------------------------------- MODULE HttpModel --------------------------------
(***************************************************************************)
(* A design of the HTTP stream and the server it talks to, checked against *)
(* the obligations of Http for every sequence of operations and answers    *)
(* within the bounds. Its transitions are replayed on the real client.     *)
(***************************************************************************)
EXTENDS Http, TLC, Json

\* Cl = 1000 stands for an unknown length
CONSTANTS Cl, Ar, MaxPos, Lens, Bug

VARIABLES m, stream, n, viol, op
vars == <<m, stream, n, viol, op>>

Cfg == [cl |-> IF Cl = 1000 THEN -1 ELSE Cl, ar |-> Ar, cttext |-> "", xhtext |-> "", target |-> "/file.mp3"]

RECURSIVE Fold(_, _, _)
Fold(x, es, vs) == IF es = <<>> THEN <<x, vs>>
                   ELSE Fold(Upd(x, es[1]), Tail(es), vs \cup Viols(x, es[1]))

Play(es) == LET r == Fold(m, es, {}) IN m' = r[1] /\ viol' = r[2]

\* The answers of the server
Answers == [st : {206}, cut : {FALSE}, trunc : BOOLEAN, len : Lens] \cup
           [st : {200}, cut : {FALSE}, trunc : {FALSE}, len : Lens] \cup
           [st : {500}, cut : {FALSE}, trunc : {FALSE}, len : {1}] \cup
           [st : {200}, cut : {TRUE}, trunc : {FALSE}, len : {1}]
Name(a) == (CASE a.cut -> "cut" [] a.st = 500 -> "500" [] a.trunc -> "trunc" [] a.st = 206 -> "part" [] OTHER -> "chunked")
           \o ":" \o ToString(a.len)
Req(range, a) == [e |-> "req", n |-> n + 1, m |-> "GET", t |-> "/file.mp3", range |-> range, st |-> a.st, len |-> a.len,
                  trunc |-> a.trunc, cut |-> a.cut, cl |-> -1, cls |-> ""]
Fine(a) == ~a.cut /\ (a.st < 400 \/ Bug = "errbody")
Res(name, a) == [e |-> name, ok |-> Fine(a), msg |-> ~a.cut]
Got(a, skip) == IF Fine(a) THEN [n |-> n + 1, off |-> Min(skip, a.len), len |-> a.len, trunc |-> a.trunc] ELSE stream

Init == /\ n = 1
        /\ op = "init"
        /\ viol = {}
        /\ m = Fold(Initial(Cfg),
                    <<[e |-> "newc", refused |-> FALSE],
                      [e |-> "req", n |-> 1, m |-> "GET", t |-> "/file.mp3", range |-> "", st |-> 200,
                       len |-> IF Cl = 1000 THEN 9 ELSE Cl, trunc |-> FALSE, cut |-> FALSE, cl |-> Cfg.cl,
                       cls |-> IF Cl = 1000 THEN "" ELSE ToString(Cl)],
                      [e |-> "new", ok |-> TRUE, kind |-> "", msg |-> FALSE]>>, {})[1]
        /\ stream = [n |-> 1, off |-> 0, len |-> IF Cl = 1000 THEN 9 ELSE Cl, trunc |-> FALSE]

\* Nothing to request at the end of the content
AtEnd(p) == p = Cfg.cl /\ Bug /= "refetch"

RangeEvents(call, ret, s, es, a) ==
  IF AtEnd(s) THEN <<call, [e |-> ret, ok |-> TRUE, msg |-> FALSE]>>
  ELSE <<call, Req("bytes=" \o ToString(s) \o "-" \o es, a), Res(ret, a)>>

Seek == \E s \in 0 .. MaxPos, en \in {0, 1, 3}, a \in Answers :
          LET es == IF en = 0 THEN "" ELSE ToString(s + en - (IF Bug = "inclusive" THEN 0 ELSE 1))
              call == [e |-> "skc", s |-> s, ss |-> ToString(s),
                       es |-> IF en = 0 THEN "" ELSE ToString(s + en - 1)]
          IN /\ Play(RangeEvents(call, "skr", s, es, a))
             /\ stream' = IF AtEnd(s) THEN Empty ELSE Got(a, 0)
             /\ n' = IF AtEnd(s) THEN n ELSE n + 1
             /\ op' = "seek " \o ToString(s) \o " " \o (IF en = 0 THEN "-" ELSE ToString(s + en)) \o " " \o Name(a)

Reconnect == \E p \in 0 .. MaxPos, a \in Answers :
  LET call == [e |-> "rcc", p |-> p, ps |-> ToString(p)]
      r == Ranges(m)
      none == r /\ AtEnd(p)
  IN /\ Play(IF r THEN RangeEvents(call, "rcr", p, "", a) ELSE <<call, Req("", a), Res("rcr", a)>>)
     /\ stream' = IF none THEN Empty
                  ELSE Got(a, IF ~r /\ Cfg.cl >= 0 /\ Bug /= "restart" THEN p ELSE 0)
     /\ n' = IF none THEN n ELSE n + 1
     /\ op' = "rc " \o ToString(p) \o " " \o Name(a)

\* Polling until k bytes arrived or the stream ended
Poll == \E k \in 1 .. 3 :
  LET left == stream.len - stream.off
      d == Min(k, left)
      over == left < k
  IN /\ Play(<<[e |-> "it", d |-> [j \in 1 .. d |-> Body(stream.n, stream.off + j - 1)],
                end |-> over /\ (~stream.trunc \/ m.failed), err |-> over /\ stream.trunc /\ ~m.failed]>>)
     /\ stream' = [stream EXCEPT !.off = @ + d]
     /\ n' = n
     /\ op' = "poll " \o ToString(k)

Next == Seek \/ Reconnect \/ Poll
Spec == Init /\ [][Next]_vars

\* Responses are interchangeable
Blind(c) == IF c = Empty THEN c ELSE [c EXCEPT !.n = 1]
View == <<Blind(stream), m.failed, Blind(m.cur), viol>>

NoViolation == viol = {}
InStep == m.cur = stream

Key(x, s) == ToString(<<Blind(s), x.failed>>)
Edges == PrintT("EDGE " \o ToJson([a |-> Key(m, stream), o |-> op', b |-> Key(m', stream')]))
=============================================================================
