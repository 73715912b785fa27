------------------------------ MODULE AdapterModel ------------------------------
(***************************************************************************)
(* A design of the OpenDAL adapter over a service that answers reads with  *)
(* buffers of any size, fails and stalls, checked against the obligations  *)
(* of Adapter. Its transitions are replayed on the real adapter.           *)
(*   s.at      where the service stands                                    *)
(*   s.left    bytes of its last buffer not delivered yet, from s.from on   *)
(*   s.broken  the next read cannot be opened                              *)
(***************************************************************************)
EXTENDS Adapter, TLC, Json

CONSTANTS Size, Chunk, Reads, Bug

VARIABLES m, s, viol, op
vars == <<m, s, viol, op>>

Min(a, b) == IF a < b THEN a ELSE b
Cfg == [kind |-> "opendal", size |-> Size, chunk |-> Chunk, ct |-> "", len |-> -1]

RECURSIVE Fold(_, _, _)
Fold(x, es, vs) == IF es = <<>> THEN <<x, vs>>
                   ELSE Fold(Upd(x, es[1]), Tail(es), vs \cup Viols(x, es[1]))
Play(es) == LET r == Fold(m, es, {}) IN m' = r[1] /\ viol' = r[2]

Item(kind, d, fail, pend) == [e |-> "it", kind |-> kind, d |-> d, fail |-> fail, pend |-> pend]
Data(from, n) == [j \in 1 .. n |-> Content(from + j - 1)]

Init == /\ m = Fold(Initial(Cfg), <<[e |-> "new", ok |-> TRUE, fail |-> FALSE, cl |-> IF Size = 0 THEN -1 ELSE Size,
                                     sk |-> TRUE, ct |-> ""]>>, {})[1]
        /\ s = [at |-> 0, stop |-> Size, from |-> 0, left |-> 0, broken |-> "no"]
        /\ viol = {}
        /\ op = "init"

\* Delivers at most a chunk of the got bytes, which start at `from`
Deliver(from, got, at) ==
  LET n == IF Bug = "chunk" THEN got ELSE Min(got, Chunk)
      left == IF Bug = "drop" THEN 0 ELSE got - n
  IN /\ Play(<<Item("data", Data(from, n), FALSE, FALSE)>>)
     /\ s' = [s EXCEPT !.at = at, !.left = left, !.from = IF left = 0 THEN at ELSE from + n]

Poll == \E a \in Reads \cup {-1, -2} :
  /\ op' = "poll " \o (CASE a = -1 -> "err" [] a = -2 -> "pend" [] OTHER -> ToString(a))
  /\ CASE s.left > 0 -> Deliver(s.from, s.left, s.at)
       [] s.left = 0 /\ s.broken = "yes" ->
            Play(<<Item(IF Bug = "hide" THEN "end" ELSE "err", <<>>, TRUE, FALSE)>>) /\ s' = [s EXCEPT !.broken = "over"]
       [] s.left = 0 /\ (s.broken = "over" \/ (s.broken = "no" /\ s.at = s.stop)) ->
            Play(<<Item("end", <<>>, FALSE, FALSE)>>) /\ s' = s
       [] OTHER ->
            IF a = -1 THEN Play(<<Item("err", <<>>, TRUE, FALSE)>>) /\ s' = s
            ELSE IF a = -2 THEN Play(<<Item("pending", <<>>, FALSE, TRUE)>>) /\ s' = s
            ELSE LET got == Min(a, s.stop - s.at) IN Deliver(s.at, got, s.at + got)

Move(call, from, to, how) ==
  LET open == to < 0
      fails == how = "stat" /\ open
      end == IF open THEN Size ELSE IF Bug = "inclusive" THEN Min(to + 1, Size) ELSE to
      start == IF Bug = "restart" /\ call = "rcc" THEN 0 ELSE from
  IN /\ Play(<<[e |-> call, s |-> from, en |-> to], [e |-> "opr", ok |-> ~fails, fail |-> fails, uns |-> FALSE]>>)
     /\ s' = IF fails THEN s
             ELSE [at |-> start, stop |-> end, broken |-> IF how = "open" THEN "yes" ELSE "no",
                   left |-> IF Bug = "stale" THEN s.left ELSE 0,
                   from |-> IF Bug = "stale" /\ s.left > 0 THEN s.from ELSE start]

Hows == {"ok", "stat", "open"}

Seek == \E from \in 0 .. Size, to \in -1 .. Size, how \in Hows :
  /\ to < 0 \/ to >= from
  /\ op' = "seek " \o ToString(from) \o " " \o (IF to < 0 THEN "-" ELSE ToString(to)) \o " " \o how
  /\ Move("skc", from, to, how)

Reconnect == \E from \in 0 .. Size, how \in Hows :
  /\ op' = "rc " \o ToString(from) \o " " \o how
  /\ Move("rcc", from, -1, how)

Next == Poll \/ Seek \/ Reconnect
Spec == Init /\ [][Next]_vars

View == <<m.pos, m.stop, m.loose, m.ended, s, viol>>
NoViolation == viol = {}
InStep == s.broken = "no" => m.pos = s.from /\ m.stop = s.stop

Key(x, t) == ToString(<<t, x.loose, x.ended>>)
Edges == PrintT("EDGE " \o ToJson([a |-> Key(m, s), o |-> op', b |-> Key(m', s')]))
=============================================================================
