---------------------------------- MODULE Core ----------------------------------
(***************************************************************************)
(* A design of the stream: the reader, the download task, what they share, *)
(* the source and the storage, composed with the obligations of Obs.       *)
(*                                                                         *)
(* The reader and the task take one step per access to what they share;    *)
(* `rpc` and `pc` name the access that comes next. Steps of the task that  *)
(* the runtime takes on its own (waking up) are part of the step that      *)
(* caused them (Settle). The environment - the user calling the reader,    *)
(* the source answering, time passing, cancellation - is free within the   *)
(* bounds of the configuration.                                            *)
(*                                                                         *)
(* Every step emits the events an observer of the real code would record;  *)
(* they are judged by Obs. NoViolation says that no schedule of this       *)
(* design breaks an obligation, Quiescent and Final say that it only stops *)
(* where it may, Terminates that it always gets there.                     *)
(*                                                                         *)
(* The same graph without the observer, with Edges printed, is turned into *)
(* schedules that drive the real code through every transition.            *)
(***************************************************************************)
EXTENDS Obs, TLC, TLCExt, Json

CONSTANTS
  Cfgs,         \* configurations to explore
  Reads,        \* buffer sizes
  Seeks,        \* <<whence, offset>>
  MaxOps,       \* calls of the reader
  Chunks,       \* sizes of chunks
  MaxFaults,    \* chunk errors, empty chunks, early ends
  MaxCalls,     \* source calls that fail or hang
  MaxAdv,       \* advances of the clock, half a retry timeout each
  Cancels,      \* whether the download may be cancelled
  Drops,        \* whether the reader may be dropped
  Judge,        \* whether the observer runs
  Bug

VARIABLES s, m, bad, op
vars == <<s, m, bad, op>>

\* The ways in which the design can be broken, to show that the obligations notice, and to find the schedules
\* that tell a broken implementation from this one (tools/witness.py)
Bugs == {"gapend", "nogap", "nofail", "norecheck", "keep", "stale", "norestart", "nowaiting", "sticky", "noreq", "reqlate",
         "pnnotify", "ppnotify", "earlydone", "nopf", "pfhole", "fulldeaf", "failread", "failseek", "looprun", "waitdeaf",
         "hangdeaf", "fulldead", "finok", "pfrest", "wstart", "seeklate", "clearany", "readquiet", "seekquiet",
         "addfirst", "hstart", "ringgap", "pfseek", "openend", "garbage", "first", "nocallback", "rcskip", "rcfatal",
         "skignore", "idlechunk", "idleskip", "rchang", "errend", "nocheck", "wfirst", "oldpf", "sameseek", "clip",
         "pfearly", "repskip", "endseek", "readfast", "holes", "doneblind", "chunkgone", "prerep", "wrap", "wlost"}
B(x) == Bug = x

Inf == 1000
HalfRt == 500

----------------------------------------------------------------------------
(* Downloaded ranges, as a set of positions *)

EndOf(D, p) == CHOOSE e \in (p + 1) .. (p + Cardinality(D)) :
                  e \notin D /\ \A q \in Rng(p, e) : q \in D
Covers(D, a, b) == a \in D /\ EndOf(D, a) >= b
Gap(D, a, b) ==
  LET miss == Rng(a, b) \ D IN
  IF miss = {} THEN <<>>
  ELSE LET g == CHOOSE x \in miss : \A y \in miss : x <= y
           more == {y \in Rng(g, b) : y \in D}
       IN <<g, IF more = {} THEN b ELSE CHOOSE x \in more : \A y \in more : x <= y>>

----------------------------------------------------------------------------
(* State *)

InitS(c) == [
  cfg |-> c,
  \* reader
  rpc |-> "idle", rop |-> "none", rn |-> 0, ra |-> 0, rb |-> 0, rw |-> "s", ro |-> 0,
  rrst |-> FALSE, rfast |-> FALSE, rlen |-> 0, rd |-> <<>>, rpos |-> 0,
  \* shared
  D |-> {}, dstart |-> 0, req |-> <<>>, restart |-> FALSE, chg |-> FALSE, lock |-> "none",
  reached |-> FALSE, sdone |-> FALSE, nperm |-> FALSE, wreq |-> FALSE, failed |-> FALSE,
  \* task
  pc |-> "poll", k |-> "", hk |-> "M", wk |-> "", wpos |-> 0, pfdone |-> c.pf = 0, pfs |-> 0,
  aa |-> 0, ab |-> 0, crem |-> 0, ck |-> 0, bw |-> 0, wstart |-> 0, newp |-> 0, hpos |-> 0,
  rq |-> <<>>, rep |-> <<0, 0>>, ph |-> "", finok |-> TRUE, finout |-> "", idle |-> 0, call |-> "", callt |-> 0,
  \* source
  spos |-> 0, send |-> c.len, ended |-> FALSE, q |-> "none", qn |-> 0, plog |-> FALSE, pg |-> FALSE,
  \* storage: which of the source's positions is stored in each cell
  cell |-> [i \in 0 .. (IF c.lim THEN c.cap - 1 ELSE c.len) |-> 0 - 1], lo |-> 0, hi |-> 0, nw |-> 0,
  \* environment
  can |-> FALSE, ops |-> 0, faults |-> 0, calls |-> 0, advs |-> 0,
  \* events of the step
  out |-> <<>>]

Emit(x, e) == [x EXCEPT !.out = Append(@, e)]
Retains(x) == ~x.cfg.lim
KnownS(x) == x.cfg.cl >= 0
Cell(x, p) == IF x.cfg.lim THEN p % x.cfg.cap ELSE p

----------------------------------------------------------------------------
(* Task *)

\* Locals of the task that aren't used anymore
Clean(x) == [x EXCEPT !.pg = FALSE, !.k = "", !.hk = "M", !.wk = "", !.aa = 0, !.ab = 0, !.crem = 0, !.ck = 0, !.bw = 0,
                      !.wstart = 0, !.newp = 0, !.hpos = 0, !.rq = <<>>, !.rep = <<0, 0>>, !.ph = "", !.callt = 0]

Fin(x, ok, o) == [Clean(x) EXCEPT !.pc = "fin", !.finok = ok, !.finout = o]
Cancelled(x) ==
  LET y == IF x.pc = "hang" THEN Emit(x, [e |-> IF x.call = "sk" THEN "skr" ELSE "rcr", ok |-> FALSE, to |-> TRUE])
           ELSE x
  IN Fin([y EXCEPT !.call = ""], FALSE, "cancelled")

Loop(x) == [x EXCEPT !.pc = "loop"]
LoopReset(x) == [x EXCEPT !.pc = "loop", !.idle = IF B("idlechunk") THEN @ ELSE 0]

\* handle_request, called from the main loop (M) or while waiting for space (F)
HR(x, hk) == [x EXCEPT !.pc = "clear", !.k = "hr", !.hk = hk]

\* What the task does between the last access to shared state and the next; sets of states
AtLoop(x) ==
  IF x.can /\ ~B("looprun") THEN {Cancelled(x)}
  ELSE (IF x.chg THEN {HR([x EXCEPT !.chg = FALSE], "M")} ELSE {}) \cup {[x EXCEPT !.pc = "poll", !.pg = x.chg]}

WLoop(x) == IF x.crem > 0 THEN [x EXCEPT !.pc = "rreq"] ELSE [x EXCEPT !.pc = "repget", !.ph = "down"]

Woken(x) == x.pc = "wait" /\ (x.chg \/ x.q # "none" \/ (x.idle >= 2 /\ ~B("idleskip")))

RECURSIVE Settle(_)
Settle(x) ==
  IF x.rpc = "rblk" /\ (x.sdone \/ x.reached)
  THEN Settle(IF x.sdone THEN [x EXCEPT !.rpc = "x1"]
              ELSE [x EXCEPT !.rpc = "w1", !.reached = IF B("sticky") THEN @ ELSE FALSE])
  ELSE CASE x.pc = "loop" -> UNION {Settle(y) : y \in AtLoop(Clean(x))}
         [] x.can /\ ((x.pc = "wait" /\ ~B("waitdeaf")) \/ (x.pc = "full" /\ ~B("fulldead")) \/ (x.pc = "hang" /\ ~B("hangdeaf"))) -> {Cancelled(x)}
         [] Woken(x) -> UNION {Settle(y) : y \in AtLoop(x)}
         [] x.pc = "full" /\ (x.nperm \/ (x.chg /\ ~B("fulldeaf"))) ->
              (IF x.nperm THEN Settle(WLoop([x EXCEPT !.nperm = FALSE])) ELSE {})
              \cup (IF x.chg /\ ~B("fulldeaf") THEN {HR([x EXCEPT !.chg = FALSE], "F")} ELSE {})
         [] OTHER -> {x}

WStart(x) == IF B("addfirst") /\ x.crem > 0
             THEN WLoop([x EXCEPT !.wstart = x.wpos, !.newp = x.wpos, !.ck = x.crem, !.D = @ \cup Rng(x.wpos, x.wpos + x.crem)])
             ELSE WLoop([x EXCEPT !.wstart = x.wpos, !.newp = x.wpos, !.ck = x.crem])

WBRet(x) ==
  IF x.wk = "pre"
  THEN IF x.wpos >= (IF B("oldpf") THEN 0 ELSE x.pfs) + (IF B("pfearly") THEN x.cfg.pf - 1 ELSE x.cfg.pf) \/ x.crem > 0
       THEN [x EXCEPT !.pc = "add", !.k = "pp", !.aa = x.pfs, !.ab = x.wpos]
       ELSE [x EXCEPT !.pc = "prog", !.ph = "pre"]
  ELSE LET y == [x EXCEPT !.newp = x.wpos]
       IN IF y.newp > y.wstart
          THEN [y EXCEPT !.pc = "add", !.k = "wr", !.aa = IF B("wstart") THEN Max(y.newp - y.cfg.bs, 0) ELSE y.wstart, !.ab = y.newp]
          ELSE [y EXCEPT !.pc = "clear", !.k = "wr"]

WB(x) == IF x.crem = 0 THEN WBRet(x) ELSE [x EXCEPT !.pc = "write"]

FinishOrGap(x) == IF (Retains(x) \/ B("ringgap")) /\ x.cfg.sk /\ KnownS(x) THEN [x EXCEPT !.pc = "rqget"] ELSE [x EXCEPT !.pc = "done1"]

NoneRecv(x0) ==
  LET x == Emit([x0 EXCEPT !.ended = TRUE, !.plog = FALSE], [e |-> "send", p |-> x0.spos])
  IN IF x.pfdone THEN FinishOrGap(x)
     ELSE [x EXCEPT !.pfdone = TRUE, !.pc = "add", !.k = "pn", !.aa = x.pfs, !.ab = x.wpos]

Deliver(x0, n) ==
  LET x == Emit([x0 EXCEPT !.q = "none", !.plog = FALSE, !.spos = @ + n, !.crem = n],
                [e |-> "chunk", p |-> x0.spos, n |-> n])
  IN IF x.pfdone THEN WStart(x) ELSE WB([x EXCEPT !.wk = "pre", !.bw = 0])

Poll(x) ==
  IF x.ended THEN NoneRecv(x)
  ELSE IF x.q = "err" /\ B("errend") THEN NoneRecv(Emit([x EXCEPT !.q = "none", !.plog = FALSE], [e |-> "serr"]))
  ELSE IF x.q = "err" /\ B("chunkgone") THEN Fin(Emit([x EXCEPT !.q = "none", !.plog = FALSE], [e |-> "serr"]), FALSE, "completed")
  ELSE CASE x.q = "none" ->
              LET y == IF x.plog THEN x ELSE Emit([x EXCEPT !.plog = TRUE], [e |-> "pend"])
              IN IF y.idle >= 2 THEN [y EXCEPT !.pc = "rcn", !.pg = FALSE]
                 \* the branch polled last sees a request that was there before
                 ELSE IF y.pg THEN HR([y EXCEPT !.chg = FALSE, !.pg = FALSE], "M")
                 ELSE [y EXCEPT !.pc = "wait"]
         [] x.q = "err" -> LoopReset(Emit([x EXCEPT !.q = "none", !.plog = FALSE], [e |-> "serr"]))
         [] x.q = "empty" -> Deliver(x, 0)
         [] x.q = "end" -> NoneRecv([x EXCEPT !.q = "none"])
         [] OTHER -> IF x.spos < x.send THEN Deliver(x, Min(x.qn, x.send - x.spos))
                     ELSE NoneRecv([x EXCEPT !.q = "none"])

\* after notify_if_reached
NAfter(x) ==
  CASE x.k = "pn" -> FinishOrGap(x)
    [] x.k = "pp" -> [x EXCEPT !.pfdone = TRUE, !.pc = "prog", !.ph = "pre",
                                !.crem = IF B("pfrest") THEN 0 ELSE @]
    [] x.k = "wr" -> IF x.bw = 0 THEN [x EXCEPT !.pc = "full"] ELSE WLoop(x)
    [] OTHER -> [x EXCEPT !.pc = "hget"]

HNo(x) == IF x.hk = "M" THEN Loop(x) ELSE WLoop(x)

SeekStart(x) ==
  IF ~Retains(x) THEN [x EXCEPT !.pc = "sk", !.aa = x.hpos, !.ab = x.cfg.cl]
  ELSE IF KnownS(x) THEN [x EXCEPT !.pc = "hgap"]
  ELSE [x EXCEPT !.pc = "sk", !.aa = x.hpos, !.ab = 0 - 1]

HSeek(x, restart) ==
  IF ~x.cfg.sk \/ (~x.pfdone /\ x.hpos \in Rng(x.pfs, x.wpos) /\ ~B("pfseek")) \/ ~(restart \/ x.hpos # x.wpos \/ B("sameseek"))
  THEN HNo(x)
  ELSE IF x.pfdone THEN SeekStart([x EXCEPT !.pfs = x.hpos, !.pfdone = B("nopf")])
  ELSE IF B("pfhole") THEN SeekStart([x EXCEPT !.pfdone = TRUE])
  ELSE [x EXCEPT !.pc = "add", !.k = "hs", !.aa = x.pfs, !.ab = x.wpos]

Reposition(x, a, b) ==
  [x EXCEPT !.pg = FALSE, !.spos = a, !.send = IF b < 0 THEN x.cfg.len ELSE Min(b, x.cfg.len), !.ended = FALSE, !.plog = FALSE,
            !.q = IF @ \in {"err", "empty"} THEN @ ELSE "none"]

SkOk(x) ==
  LET y == Emit(Reposition(x, x.aa, x.ab), [e |-> "skr", ok |-> TRUE, to |-> FALSE])
      z == IF x.aa = x.wpos THEN y ELSE Emit([y EXCEPT !.wpos = x.aa], [e |-> "ws", p |-> x.aa])
      w == IF x.cfg.lim /\ x.aa < x.lo THEN [z EXCEPT !.lo = x.aa, !.hi = x.aa] ELSE z
      v == [w EXCEPT !.call = ""]
  IN IF Retains(x) \/ B("keep") THEN LoopReset(v) ELSE [v EXCEPT !.pc = "drst"]
SkErr(x) == IF B("skignore") THEN LoopReset(Emit([x EXCEPT !.call = ""], [e |-> "skr", ok |-> FALSE, to |-> FALSE])) ELSE Fin(Emit([x EXCEPT !.call = ""], [e |-> "skr", ok |-> FALSE, to |-> FALSE]), FALSE, "completed")
RcOk(x) ==
  [Emit(Reposition(x, x.aa, 0 - 1), [e |-> "rcr", ok |-> TRUE, to |-> FALSE]) EXCEPT !.pc = IF B("nocallback") THEN "loop" ELSE "onrec", !.call = ""]
RcErr(x, to) == IF B("rcfatal") /\ ~to THEN Fin(Emit([x EXCEPT !.call = ""], [e |-> "rcr", ok |-> FALSE, to |-> to]), FALSE, "completed") ELSE LoopReset(Emit([x EXCEPT !.call = ""], [e |-> "rcr", ok |-> FALSE, to |-> to]))

RepRange(x, p) == LET q == Max(p, 1) - 1 IN
  IF q \in x.D THEN <<CHOOSE a \in 0 .. q : (a = 0 \/ (a - 1) \notin x.D) /\ Rng(a, q) \subseteq x.D, EndOf(x.D, q)>>
  ELSE <<0, 0>>

Space(x) == IF x.cfg.lim /\ ~B("wrap") THEN Max(0, x.cfg.cap - Max(0, x.wpos - x.rpos)) ELSE Inf
Write(x) ==
  LET n == Min(x.cfg.bs, x.crem)
      lim == IF x.cfg.accept > 0 THEN Min(n, x.cfg.accept) ELSE n
      a == Min(lim, Space(x))
      \* what is written is what the source delivered last
      tag(j) == x.spos - x.crem + j
      y == [x EXCEPT !.cell = [i \in DOMAIN @ |-> IF \E j \in Rng(0, a) : Cell(x, x.wpos + j) = i
                               THEN LET j == CHOOSE j \in Rng(0, a) : Cell(x, x.wpos + j) = i IN tag(j) ELSE @[i]],
                     !.wpos = @ + a, !.crem = @ - a, !.bw = @ + a, !.nw = @ + 1,
                     !.hi = Max(@, x.wpos + a),
                     !.lo = IF x.cfg.lim THEN Max(@, Max(x.hi, x.wpos + a) - x.cfg.cap) ELSE @]
      z == Emit(y, [e |-> "w", p |-> x.wpos, n |-> n, r |-> a, ok |-> TRUE,
                    d |-> [j \in 1 .. a |-> Content(tag(j - 1))]])
  IN IF x.nw = x.cfg.wfail
     THEN Fin(Emit([x EXCEPT !.nw = @ + 1], [e |-> "w", p |-> x.wpos, n |-> n, r |-> 0, ok |-> FALSE, d |-> <<>>]),
              FALSE, "completed")
     ELSE IF B("wlost") /\ a > 0 /\ a < n THEN WBRet([z EXCEPT !.crem = 0])
     ELSE IF a = 0 THEN WBRet([z EXCEPT !.nw = IF x.cfg.wfail < 0 THEN 0 ELSE @])
     ELSE LET t == Emit([z EXCEPT !.nw = IF x.cfg.wfail < 0 THEN 0 ELSE @], [e |-> "tick"])
          IN IF x.can THEN Cancelled(t) ELSE IF B("reqlate") /\ x.wk = "wr" /\ t.crem > 0 THEN WB([t EXCEPT !.wreq = TRUE]) ELSE WB(t)

\* One step of the task from the access named by pc, before settling; plans: how a call of the source may end
DStep(x, plan) ==
  CASE x.pc = "poll" -> Poll(x)
    [] x.pc = "rreq" -> WB([x EXCEPT !.wreq = IF B("noreq") THEN @ ELSE TRUE, !.wk = "wr", !.bw = 0])
    [] x.pc = "write" -> Write(x)
    [] x.pc = "add" ->
         LET y == [x EXCEPT !.D = @ \cup Rng(x.aa, x.ab)]
         IN IF x.k = "hs" THEN SeekStart([y EXCEPT !.pfdone = TRUE])
            ELSE IF (B("pnnotify") /\ x.k = "pn") \/ (B("ppnotify") /\ x.k = "pp") THEN NAfter(y)
            ELSE [y EXCEPT !.pc = "clear"]
    [] x.pc = "clear" -> IF x.req = <<>> THEN NAfter(x) ELSE [x EXCEPT !.pc = "cget", !.lock = "D"]
    [] x.pc = "cget" ->
         IF Covers(x.D, x.req[1], x.req[2]) \/ B("clearany") \/ (B("first") /\ x.req[1] \in x.D)
         THEN [x EXCEPT !.req = <<>>, !.lock = "none", !.pc = "rnotify"]
         ELSE NAfter([x EXCEPT !.lock = "none"])
    [] x.pc = "rnotify" -> NAfter([x EXCEPT !.reached = TRUE])
    [] x.pc = "hget" -> IF x.req = <<>> \/ x.req[1] >= x.req[2] THEN HNo(x)
                        ELSE [x EXCEPT !.rq = x.req, !.pc = "hpos"]
    [] x.pc = "hpos" /\ ~B("stale") /\ Covers(x.D, x.rq[1], x.rq[2]) -> HNo(x)
    [] x.pc = "hpos" -> [x EXCEPT !.hpos = IF x.rq[1] \in x.D /\ ~B("hstart") THEN EndOf(x.D, x.rq[1]) ELSE x.rq[1], !.pc = "hrst", !.rq = <<>>]
    [] x.pc = "hrst" -> HSeek([x EXCEPT !.restart = FALSE], x.restart)
    [] x.pc = "hgap" -> LET g == Gap(x.D, x.hpos, x.cfg.cl) IN
         IF g = <<>> THEN IF B("endseek") THEN [x EXCEPT !.pc = "sk", !.aa = x.hpos, !.ab = x.cfg.cl] ELSE [x EXCEPT !.pc = "sk", !.aa = x.cfg.cl, !.ab = x.cfg.cl]
         ELSE [x EXCEPT !.pc = "sk", !.aa = g[1], !.ab = IF B("gapend") THEN x.cfg.cl ELSE IF B("openend") THEN 0 - 1 ELSE g[2]]
    [] x.pc = "rqget" -> [x EXCEPT !.rq = IF x.req = <<>> THEN <<0, 0>> ELSE x.req, !.pc = "gap1"]
    [] x.pc = "gap1" -> LET g == Gap(x.D, x.rq[1], x.cfg.cl) y == [x EXCEPT !.rq = <<>>] IN
         IF B("nogap") THEN [y EXCEPT !.pc = "done1"]
         ELSE IF B("holes") THEN IF g # <<>> THEN [y EXCEPT !.pc = "sk", !.aa = g[1], !.ab = g[2]] ELSE [y EXCEPT !.pc = "done1"]
         ELSE IF g # <<>> /\ g[1] < x.rq[2] THEN [y EXCEPT !.pc = "sk", !.aa = g[1], !.ab = g[2]]
         ELSE [y EXCEPT !.pc = "gap2"]
    [] x.pc = "gap2" -> LET g == Gap(x.D, 0, x.cfg.cl) IN
         IF g = <<>> THEN [x EXCEPT !.pc = "done1"] ELSE [x EXCEPT !.pc = "sk", !.aa = g[1], !.ab = g[2]]
    [] x.pc = "done1" -> [x EXCEPT !.sdone = TRUE, !.pc = "repget", !.ph = "complete", !.newp = x.wpos]
    [] x.pc = "repget" -> [x EXCEPT !.rep = RepRange(x, x.newp), !.pc = "prog"]
    [] x.pc = "prog" ->
         LET y == [Emit(x, [e |-> "prog", ph |-> x.ph, pos |-> x.wpos,
                            a |-> IF x.ph = "pre" THEN x.pfs ELSE x.rep[1],
                            b |-> IF x.ph = "pre" THEN x.wpos ELSE x.rep[2],
                            ck |-> CASE x.ph = "pre" -> x.bw [] x.ph = "down" -> x.ck [] OTHER -> 0 - 1,
                            tgt |-> IF x.ph = "pre" THEN x.cfg.pf ELSE 0 - 1]) EXCEPT !.rep = <<0, 0>>]
         IN CASE x.ph = "down" /\ B("repskip") -> LoopReset(x)
              [] x.ph = "complete" -> Fin(y, TRUE, "completed")
              [] x.ph = "pre" /\ x.crem > 0 /\ ~B("prerep") -> WStart(y)
              [] OTHER -> LoopReset(y)
    [] x.pc = "sk" ->
         LET y == Emit([x EXCEPT !.plog = FALSE, !.calls = IF plan = "ok" THEN @ ELSE @ + 1], [e |-> "sk", s |-> x.aa, en |-> x.ab])
         IN CASE plan = "ok" -> SkOk(y) [] plan = "err" -> SkErr(y)
              [] OTHER -> [y EXCEPT !.pc = "hang", !.call = "sk"]
    [] x.pc = "drst" -> LoopReset([x EXCEPT !.D = {}, !.dstart = x.wpos])
    [] x.pc = "rcn" ->
         LET y == Emit([x EXCEPT !.plog = FALSE, !.aa = IF B("rcskip") THEN x.wpos + 1 ELSE x.wpos, !.calls = IF plan = "ok" THEN @ ELSE @ + 1], [e |-> "rcn", p |-> IF B("rcskip") THEN x.wpos + 1 ELSE x.wpos])
         IN CASE plan = "err" \/ ~x.cfg.sk -> RcErr(y, FALSE) [] plan = "ok" -> RcOk(y)
              [] OTHER -> [y EXCEPT !.pc = "hang", !.call = "rcn", !.callt = 0]
    [] x.pc = "onrec" -> LoopReset(Emit(x, [e |-> "onrec"]))
    [] x.pc = "fin" -> IF B("earlydone") /\ ~x.sdone THEN [x EXCEPT !.sdone = TRUE]
                       ELSE [Emit(x, [e |-> "fin", ok |-> x.finok \/ B("finok"), out |-> x.finout]) EXCEPT !.pc = "finr"]
    [] x.pc = "finr" ->
         LET ok == (x.finok \/ B("finok")) /\ x.cfg.fin # "err"
         IN [Emit(x, [e |-> "finr", ok |-> ok]) EXCEPT !.pc = IF ok \/ B("nofail") THEN "done2" ELSE "setf"]
    [] x.pc = "setf" -> [x EXCEPT !.failed = TRUE, !.pc = "done2"]
    [] x.pc = "done2" -> [Emit(x, [e |-> "done"]) EXCEPT !.sdone = TRUE, !.pc = "dropd"]
    [] OTHER -> [x EXCEPT !.pc = "end"]

DLocked(x) == x.pc \in {"clear", "hget", "rqget"} /\ x.lock # "none"
DReady(x) == x.pc \notin {"wait", "full", "hang", "end", "loop"} /\ ~DLocked(x)

----------------------------------------------------------------------------
(* Reader *)

ReadRet(x, ok, d, err) ==
  [Emit(x, [e |-> "rr", ok |-> ok, k |-> Len(d), d |-> d, err |-> err])
     EXCEPT !.rpc = "idle", !.rop = "none", !.rd = <<>>, !.rn = 0, !.ra = 0, !.rb = 0, !.rlen = 0, !.rfast = FALSE]
SeekRet(x, ok, p, err) ==
  [Emit(x, [e |-> "kr", ok |-> ok, p |-> p, err |-> err])
     EXCEPT !.rpc = "idle", !.rop = "none", !.ra = 0, !.rb = 0, !.ro = 0, !.rw = "s", !.rfast = FALSE, !.rrst = FALSE]
Ret(x, err) == IF x.rop = "read" THEN ReadRet(x, FALSE, <<>>, err) ELSE SeekRet(x, FALSE, 0, err)

Target(x) == CASE x.rw = "s" -> x.ro [] x.rw = "c" -> x.rpos + x.ro [] OTHER -> x.cfg.cl + x.ro
Clip(x, p) == IF KnownS(x) THEN Min(p, x.cfg.cl) ELSE p

\* r2: waiting range as set by read
RStep(x) ==
  CASE x.rpc = "f1" ->
         IF x.failed /\ ~B("nocheck") THEN Ret(x, "Other")
         ELSE IF x.rop = "read"
         THEN IF x.cfg.cap >= 0 /\ x.rn > x.cfg.cap THEN Ret(x, "InvalidInput")
              ELSE IF x.rn = 0 THEN ReadRet(x, TRUE, <<>>, "")
              ELSE [x EXCEPT !.ra = x.rpos, !.rb = Max(Clip(x, x.rpos + x.rn), x.rpos), !.rpc = "g1"]
         ELSE IF x.rw = "e" /\ ~KnownS(x) THEN Ret(x, "Unsupported")
         ELSE IF Target(x) < 0 THEN Ret(x, "InvalidInput")
         ELSE LET t == Clip(x, Target(x)) IN
              IF x.cfg.cap >= 0 /\ (IF B("clip") THEN t >= x.rpos + x.cfg.cap ELSE t > x.rpos + x.cfg.cap) THEN Ret(x, "InvalidInput")
              ELSE [x EXCEPT !.ra = t, !.rb = t + 1, !.rpc = "g1"]
    [] x.rpc = "g1" ->
         IF x.rop = "read"
         THEN [x EXCEPT !.rpc = IF x.ra \in x.D /\ (EndOf(x.D, x.ra) >= x.rb \/ B("readfast")) THEN "h1" ELSE "w1"]
         ELSE [x EXCEPT !.rpc = IF B("seeklate") /\ x.ra \notin x.D THEN "w1" ELSE "rs", !.rfast = x.ra \in x.D,
                           !.rrst = B("seeklate") /\ x.ra \notin x.D]
    [] x.rpc = "rs" -> [x EXCEPT !.rpos = x.ra, !.rpc = "rn"]
    [] x.rpc = "rn" ->
         LET y == IF x.wreq /\ ~(B("seekquiet") /\ x.rfast) THEN [x EXCEPT !.wreq = FALSE, !.nperm = TRUE] ELSE x
         IN IF x.rfast \/ B("seeklate") THEN SeekRet(y, TRUE, x.rpos, "") ELSE [y EXCEPT !.rrst = ~B("norestart"), !.rpc = "w1"]
    [] x.rpc = "w1" -> [x EXCEPT !.rpc = IF Covers(x.D, x.ra, x.rb) \/ (B("first") /\ x.ra \in x.D) THEN "x1" ELSE "w2"]
    [] x.rpc = "w2" /\ B("wfirst") -> [x EXCEPT !.chg = TRUE, !.rpc = "w3", !.req = <<x.ra, x.rb>>]
    [] x.rpc = "w3" /\ B("wfirst") -> [x EXCEPT !.restart = x.rrst, !.rrst = FALSE, !.rpc = "w4"]
    [] x.rpc = "w2" -> [x EXCEPT !.restart = x.rrst, !.rrst = FALSE, !.req = <<x.ra, x.rb>>, !.rpc = "w3"]
    [] x.rpc = "w3" -> [x EXCEPT !.chg = TRUE, !.rpc = IF B("norecheck") THEN "w6" ELSE "w4"]
    [] x.rpc = "w4" -> IF x.req = <<>> THEN [x EXCEPT !.rpc = "w6"] ELSE [x EXCEPT !.rpc = "w5", !.lock = "R"]
    [] x.rpc = "w5" ->
         IF Covers(x.D, x.req[1], x.req[2]) THEN [x EXCEPT !.req = <<>>, !.lock = "none", !.rpc = "x1"]
         ELSE [x EXCEPT !.lock = "none", !.rpc = "w6"]
    [] x.rpc = "w6" -> [x EXCEPT !.nperm = @ \/ (x.wreq /\ ~B("nowaiting")), !.rpc = "w7"]
    [] x.rpc = "w7" -> IF x.sdone /\ ~B("doneblind") THEN [x EXCEPT !.rpc = "x1"] ELSE [x EXCEPT !.rpc = "rblk"]
    [] x.rpc = "x1" -> IF B("seeklate") /\ x.rop = "seek" /\ ~x.failed THEN [x EXCEPT !.rpc = "rs"]
                       ELSE IF x.failed /\ ~(B("failread") /\ x.rop = "read") /\ ~(B("failseek") /\ x.rop = "seek") THEN Ret(x, "Other")
                       ELSE IF x.rop = "read" THEN [x EXCEPT !.rpc = "h1"]
                       ELSE SeekRet(x, TRUE, x.rpos, "")
    [] x.rpc = "h1" -> IF x.rpos \notin x.D THEN [x EXCEPT !.rpc = "h2"]
                       ELSE [x EXCEPT !.rlen = IF B("garbage") THEN Min(x.rn, x.hi - x.rpos) ELSE Min(x.rn, EndOf(x.D, x.rpos) - x.rpos), !.rpc = "h3"]
    [] x.rpc = "h2" -> IF x.rpos < x.dstart \/ \E p \in x.D : p > x.rpos /\ (p - 1) \notin x.D
                       THEN Ret(x, "InvalidInput") ELSE ReadRet(x, TRUE, <<>>, "")
    [] x.rpc = "h3" ->
         IF x.cfg.lim
         THEN LET k == Min(x.rlen, Max(0, x.hi - x.rpos)) IN
              IF x.rpos < x.lo THEN [x EXCEPT !.rpc = "h4", !.rlen = 0 - 1]
              ELSE [x EXCEPT !.rd = [j \in 1 .. k |-> LET c == x.cell[Cell(x, x.rpos + j - 1)] IN
                                                      IF c < 0 THEN 0 ELSE Content(c)], !.rpos = @ + k, !.rpc = "h4"]
         ELSE [x EXCEPT !.rd = [j \in 1 .. x.rlen |-> LET c == x.cell[x.rpos + j - 1] IN IF c < 0 THEN 0 ELSE Content(c)],
                        !.rpos = @ + x.rlen, !.rpc = "h4"]
    [] OTHER ->  \* h4
         LET y == IF x.wreq /\ ~B("readquiet") THEN [x EXCEPT !.wreq = FALSE, !.nperm = TRUE] ELSE x
         IN IF x.rlen < 0 THEN ReadRet(y, FALSE, <<>>, "InvalidInput") ELSE ReadRet(y, TRUE, x.rd, "")

RLocked(x) == x.rpc \in {"w2", "w4"} /\ x.lock # "none"
RReady(x) == x.rpc \notin {"idle", "rblk", "gone"} /\ ~RLocked(x)

----------------------------------------------------------------------------
(* Environment *)

\* Nothing moves unless the environment acts
Quiet(x) == ~DReady(x) /\ ~RReady(x) /\ ~DLocked(x) /\ ~RLocked(x)

Tick(x) ==
  LET y == Emit([x EXCEPT !.advs = @ + 1, !.idle = Min(2, @ + 1)], [e |-> "adv", ms |-> HalfRt])
  IN IF y.pc = "hang" /\ y.call = "rcn"
     THEN IF y.callt + 1 >= 2 /\ ~B("rchang") THEN RcErr(y, TRUE) ELSE [y EXCEPT !.callt = @ + 1]
     ELSE y

Str(w, o) == "seek " \o w \o " " \o ToString(o)

Fold(x) == [x EXCEPT !.out = <<>>]

RECURSIVE UpdAll(_, _)
UpdAll(mm, es) == IF es = <<>> THEN mm ELSE UpdAll(Upd(mm, Head(es)), Tail(es))
RECURSIVE ViolsAll(_, _)
ViolsAll(mm, es) == IF es = <<>> THEN {} ELSE Viols(mm, Head(es)) \cup ViolsAll(Upd(mm, Head(es)), Tail(es))

Take(x, label) ==
  \E y \in Settle(x) :
    /\ s' = Fold(y)
    /\ op' = label
    /\ m' = IF Judge THEN UpdAll(m, y.out) ELSE m
    /\ bad' = IF Judge THEN ViolsAll(m, y.out) ELSE {}

Task == /\ DReady(s)
        /\ \/ Take(DStep(s, "ok"), "D")
           \/ s.pc \in {"sk", "rcn"} /\ s.calls < MaxCalls
              /\ \E p \in {"err", "hang"} : Take(DStep(s, p), "plan " \o p \o ";D")
Reader == RReady(s) /\ Take(RStep(s), "R")

Call == /\ s.rpc = "idle" /\ s.ops < MaxOps
        /\ LET x == [s EXCEPT !.ops = @ + 1, !.rpc = "f1"] IN
           \/ \E n \in Reads : Take(Emit([x EXCEPT !.rop = "read", !.rn = n], [e |-> "rc", n |-> n]), "read " \o ToString(n))
           \/ \E sk \in Seeks : Take(Emit([x EXCEPT !.rop = "seek", !.rw = sk[1], !.ro = sk[2]],
                                          [e |-> "kc", w |-> sk[1], o |-> sk[2]]), Str(sk[1], sk[2]))
Drop == /\ Drops /\ s.rpc = "idle"
        /\ Take(Emit([s EXCEPT !.rpc = "gone", !.can = @ \/ s.cfg.cod], [e |-> "drop"]), "drop")
Source == /\ s.pc \in {"wait", "poll"} /\ s.q = "none"
          /\ \/ \E n \in Chunks : Take([s EXCEPT !.q = "chunk", !.qn = n], "chunk " \o ToString(n))
             \/ /\ s.faults < MaxFaults
                /\ \E f \in {"err", "empty", "end"} : Take([s EXCEPT !.q = f, !.faults = @ + 1], f)
Answer == /\ s.pc = "hang"
          /\ \/ Take(IF s.call = "sk" THEN SkOk(s) ELSE RcOk(s), "res 1")
             \/ Take(IF s.call = "sk" THEN SkErr(s) ELSE RcErr(s, FALSE), "res 0")
Time == s.advs < MaxAdv /\ Quiet(s) /\ s.pc # "end" /\ Take(Tick(s), "adv " \o ToString(HalfRt))
Cancel == Cancels /\ ~s.can /\ s.pc # "end" /\ Take(Emit([s EXCEPT !.can = TRUE], [e |-> "cancel", by |-> "token"]), "cancel")

Next == Task \/ Reader \/ Call \/ Drop \/ Source \/ Answer \/ Time \/ Cancel

Init == \E c \in Cfgs :
          /\ s = InitS(c)
          /\ m = Initial(c)
          /\ bad = {}
          /\ op = "init"

\* What the environment owes: the source answers, time may stand still
Owed == Task \/ Reader \/ Source \/ Answer
Spec == Init /\ [][Next]_vars /\ WF_vars(Task) /\ WF_vars(Reader) /\ WF_vars(Source) /\ WF_vars(Answer)

----------------------------------------------------------------------------
(* Obligations *)

NoViolation == bad = {}

QuietEvent(x) == [e |-> "quiet", rb |-> x.rpc = "rblk", sp |-> x.pc = "wait", hg |-> x.pc = "hang", down |-> FALSE]
Quiescent == Judge /\ Quiet(s) => VQuiet(m, QuietEvent(s)) = {}

\* Nothing is left to do for the task, the reader and a source that answers
Over(x) == ~DReady(x) /\ ~RReady(x) /\ x.pc \notin {"wait", "hang"}
Final == Judge /\ Over(s) /\ Quiet(s)
         => VFinal([m EXCEPT !.eof = FALSE], [e |-> "final", rb |-> s.rpc = "rblk", rgone |-> s.rpc = "gone", down |-> FALSE]) = {}

\* Never stuck on a lock
Locks == ~(DLocked(s) /\ RLocked(s)) /\ (s.lock = "D" => DReady(s)) /\ (s.lock = "R" => RReady(s))

Terminates == <>[](Over(s))

View == <<s, m, bad>>
ViewS == s

\* States are printed as fingerprints
Edges == PrintT("EDGE " \o ToJson([a |-> ToString(TLCFP(s)), o |-> op', b |-> ToString(TLCFP(s'))]))
First == TLCGet("level") > 1 \/ PrintT("EDGE " \o ToJson([a |-> "init", o |-> ToJson(s.cfg), b |-> ToString(TLCFP(s))]))
=============================================================================
