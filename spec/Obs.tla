--------------------------------- MODULE Obs ---------------------------------
(***************************************************************************)
(* What a user of StreamDownload may observe.                              *)
(*                                                                         *)
(* The state `m` is the abstract state of one stream: what the source      *)
(* delivered, what was stored where, where the reader stands, what it is   *)
(* waiting for, and how the download task ended.  Upd(m, e) is the         *)
(* transition taken for an observed event e; Viols(m, e) names every       *)
(* obligation of the properties C01..C27 that e breaks in state m.         *)
(*                                                                         *)
(* The module is used twice: Trace.tla folds it over traces recorded from  *)
(* the real code, and Core.tla composes it with a model of the             *)
(* implementation's own actions, so that TLC checks the same obligations   *)
(* on every interleaving of the design.                                    *)
(*                                                                         *)
(* Only events at the crate's public boundary are used: calls and returns  *)
(* of the reader, of the source, of the storage writer and of callbacks,   *)
(* the passing of (virtual) time, and quiescence.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* The byte of the source at position i, never zero.
Content(i) == ((i * 37 + 11) % 251) + 1

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Rng(a, b) == a .. (b - 1)
If(c, p, w) == IF c THEN {<<p, w>>} ELSE {}

Initial(c) == [
    cfg |-> c,
    now |-> 0,
    \* reader
    pos |-> 0,            \* reader position
    rop |-> "none",       \* call in progress
    rn |-> 0,             \* buffer size of the read in progress
    tgt |-> -1,           \* target of the seek in progress
    refuse |-> "",        \* error kind the call in progress has to be refused with
    late |-> FALSE,       \* call in progress started after the task was done
    rgone |-> FALSE,
    seeked |-> FALSE,     \* any successful seek so far
    refused |-> FALSE,    \* a request was refused for exceeding the capacity
    eof |-> FALSE,        \* the last read returned zero bytes
    \* source
    spos |-> 0,           \* next position the source delivers
    dl |-> {},            \* positions delivered
    dls |-> {},           \* positions delivered since the last range request
    sended |-> FALSE,     \* current response ended
    aftersend |-> FALSE,  \* nothing else happened since it ended
    pendAt |-> -1,        \* since when the source has been pending
    pendLow |-> -1,       \* the same, not restarted by chunk errors
    call |-> "none",      \* range request or reconnect in progress
    callAt |-> 0,
    skfail |-> FALSE,
    nsk |-> 0,
    \* reconnects
    nrc |-> 0,
    needrec |-> FALSE,    \* the reconnect callback is due
    rcfail |-> FALSE,
    \* storage
    wpos |-> 0,           \* writer position
    wr |-> {},            \* positions written so far
    wrs |-> {},           \* positions written since the last range request
    av |-> {},            \* positions written before the last range request
    hi |-> 0,
    wfail |-> FALSE,
    chn |-> 0,            \* size of the chunk being handled
    chw |-> 0,            \* bytes of it written
    tickdue |-> FALSE,    \* a write happened and other tasks did not run since
    \* prefetch
    pfopen |-> TRUE,
    pfg |-> 0,            \* bytes delivered since the last range request
    \* progress
    ph |-> "none",
    repdue |-> FALSE,     \* a chunk was handled and not reported yet
    repd |-> 0,
    sksince |-> FALSE,    \* range request since the last report
    \* end
    can |-> FALSE,
    cancalls |-> 0,       \* source calls and chunks since the cancellation
    down |-> FALSE,
    panic |-> FALSE,
    fin |-> "none",
    fout |-> "",
    finr |-> "none",
    done |-> FALSE,
    drain |-> FALSE]

CL(m) == m.cfg.cl
Known(m) == m.cfg.cl >= 0
Lim(m) == m.cfg.lim
Cap(m) == m.cfg.cap
\* The storage can hold everything and missing ranges can be requested again
Complete(m) == m.cfg.sk /\ Known(m) /\ ~Lim(m)

Stopped(m) == m.can \/ m.down \/ m.panic
\* The download ended, or is ending, for a reason other than success
Failing(m) == Stopped(m) \/ m.skfail \/ m.wfail \/ m.fin = "err" \/ m.finr = "err"
              \/ (m.cfg.fin = "err" /\ m.sended)
Failed(m) == m.done /\ (m.finr = "err" \/ m.finr = "none")

----------------------------------------------------------------------------
(* Reader *)

\* Positions the call in progress waits for
Need(m) ==
  IF m.rop = "read"
  THEN LET q == m.pos + m.rn IN Rng(m.pos, IF Known(m) THEN Min(q, Max(CL(m), m.pos)) ELSE q)
  ELSE IF Known(m) /\ m.tgt >= CL(m) THEN {} ELSE {m.tgt}

Have(m) == IF Lim(m) THEN m.wrs ELSE m.wr

PfMet(m) == \/ m.cfg.pf = 0
            \/ m.pfg >= m.cfg.pf
            \/ m.sended
            \/ (~Lim(m) /\ Need(m) \subseteq m.av)

SeekRaw(m, e) == CASE e.w = "s" -> e.o
                   [] e.w = "c" -> m.pos + e.o
                   [] OTHER -> CL(m) + e.o
SeekTarget(m, e) == IF Known(m) THEN Min(SeekRaw(m, e), CL(m)) ELSE SeekRaw(m, e)
SeekRefusal(m, e) ==
  IF e.w = "e" /\ ~Known(m) THEN "Unsupported"
  ELSE IF SeekRaw(m, e) < 0 THEN "InvalidInput"
  ELSE IF Cap(m) >= 0 /\ SeekTarget(m, e) > m.pos + Cap(m) THEN "Capacity"
  ELSE ""

\* What was delivered and not dropped since
Kept(m) == IF Lim(m) THEN m.dls ELSE m.dl

\* Nothing follows position q that could still be provided: the end, or a hole left by a seek
AtStop(m, q) ==
  \/ Known(m) /\ q >= CL(m)
  \/ m.sended /\ q \notin Kept(m) /\ ~Complete(m)

\* Zero bytes at position q are the end of the stream
AtEnd(m, q) == AtStop(m, q) /\ (Known(m) \/ Lim(m) \/ \A b \in m.dl : b < q)

\* An error is expected because the position is gone or will never be there
Unavailable(m) ==
  \/ Lim(m) /\ m.pos < m.hi - Cap(m)
  \/ m.sended /\ m.pos \notin Kept(m) /\ ~Complete(m)

BadData(m, e) ==
  \/ e.k > m.rn
  \/ Len(e.d) # e.k
  \/ \E j \in 1 .. Len(e.d) : e.d[j] # Content(m.pos + j - 1)
  \/ ~(Rng(m.pos, m.pos + e.k) \subseteq m.dl)

VRead(m, e) ==
  LET bad == e.ok /\ BadData(m, e)
      q == m.pos + e.k
      short == e.ok /\ m.rn > 0 /\ e.k < m.rn /\ ~(IF e.k = 0 THEN AtEnd(m, q) ELSE AtStop(m, q))
      toolarge == Cap(m) >= 0 /\ m.rn > Cap(m)
      unexp == ~e.ok /\ ~Failing(m) /\ ~toolarge /\ ~Unavailable(m)
      fresh == Rng(m.pos, q) \ m.av # {}
  IN UNION {
    If(bad, "C01", "read returned something else than the source's bytes"),
    If(bad /\ m.nrc > 0, "C10", "wrong data after a reconnect"),
    If(bad /\ Lim(m), "C14", "wrong data through a bounded storage"),
    If(bad /\ m.refused, "C15", "wrong data after a refused request"),
    If(bad /\ ~m.cfg.sk, "C24", "wrong data from an unseekable source"),
    If(short, "C02", "short read before the end"),
    If(short /\ Lim(m), "C14", "short read before the end through a bounded storage"),
    If(short /\ ~m.cfg.sk, "C24", "short read before the end of an unseekable source"),
    If(e.ok /\ m.rn > 0 /\ e.k < Cardinality(Need(m)) /\ (m.fin = "err" \/ m.skfail \/ m.wfail),
       "C07", "read reported the end instead of the failure"),
    If(e.ok /\ m.rn > 0 /\ e.k < Cardinality(Need(m)) /\ m.fin = "err" /\ m.can,
       "C08", "read reported the end instead of the cancellation"),
    If(unexp, "C02", "read failed although the data can be provided"),
    If(unexp /\ e.err = "InvalidInput", "C15", "read refused although it is within the capacity"),
    If(unexp /\ Lim(m), "C14", "read through a bounded storage failed"),
    If(unexp /\ ~m.cfg.sk, "C24", "read from an unseekable source failed"),
    If(unexp /\ m.fin = "ok" /\ Complete(m), "C06", "byte not readable after completion"),
    If(toolarge /\ e.ok, "C15", "read larger than the capacity accepted"),
    If(toolarge /\ ~e.ok /\ e.err # "InvalidInput" /\ ~Failing(m), "C15", "wrong error for a too large read"),
    If(e.ok /\ m.late /\ Failed(m), "C07", "read succeeded after the download failed"),
    If(e.ok /\ m.late /\ Failed(m) /\ m.can, "C08", "read succeeded after the cancellation"),
    If(e.ok /\ e.k > 0 /\ fresh /\ m.cfg.pf > 0 /\ ~Lim(m) /\ m.pfopen /\ m.pfg < m.cfg.pf
         /\ ~m.sended /\ ~Failing(m),
       "C11", "data served before the prefetch completed") }

VSeek(m, e) ==
  LET r == m.refuse
      unexp == ~e.ok /\ r = "" /\ ~Failing(m)
      \* the position was never stored and will not be anymore
      lost == r = "" /\ Need(m) # {} /\ m.tgt \notin m.wr
  IN UNION {
    If(e.ok /\ r = "" /\ e.p # m.tgt, "C04", "seek landed elsewhere"),
    If(e.ok /\ r \in {"InvalidInput", "Unsupported"}, "C04", "invalid seek accepted"),
    If(~e.ok /\ r \in {"InvalidInput", "Unsupported"} /\ e.err # r /\ ~Failing(m), "C04", "wrong error for an invalid seek"),
    If(e.ok /\ r = "Capacity", "C15", "seek further ahead than the capacity accepted"),
    If(~e.ok /\ r = "Capacity" /\ e.err # "InvalidInput" /\ ~Failing(m), "C15", "wrong error for a seek beyond the capacity"),
    If(unexp, "C04", "valid seek refused"),
    If(unexp /\ e.err = "InvalidInput", "C15", "seek within the capacity refused"),
    If(unexp /\ ~m.cfg.sk, "C24", "valid seek on an unseekable source refused"),
    If(e.ok /\ m.late /\ Failed(m), "C07", "seek succeeded after the download failed"),
    If(e.ok /\ m.late /\ Failed(m) /\ m.can, "C08", "seek succeeded after the cancellation"),
    If(e.ok /\ lost /\ (m.fin = "err" \/ m.skfail \/ m.wfail), "C07", "seek that waited succeeded although the download failed"),
    If(e.ok /\ lost /\ m.fin = "err" /\ m.can, "C08", "seek that waited succeeded although the download was cancelled"),
    If(e.ok /\ ~m.cfg.sk /\ m.tgt >= 0 /\ r = "" /\ ~(Need(m) \subseteq m.dl) /\ ~m.sended,
       "C24", "seek returned before the stream caught up"),
    If(e.ok /\ r = "" /\ m.tgt \notin m.av /\ m.tgt \in m.dl /\ m.cfg.pf > 0 /\ ~Lim(m)
         /\ m.pfopen /\ m.pfg < m.cfg.pf /\ ~m.sended /\ ~Failing(m),
       "C11", "seek served before the prefetch completed") }

----------------------------------------------------------------------------
(* Source *)

SrcEvents == {"pend", "chunk", "serr", "send", "sk", "rcn"}

\* Obligations of every call of the source
VSrc(m, e) ==
  LET next == e.e \in {"pend", "chunk", "send", "sk", "serr", "rcn"}
      abandoned == e.e = "sk" /\ Lim(m)
  IN UNION {
    If(m.fin # "none", "C09", "source used after the finish hook"),
    If(m.needrec /\ ~m.can, "C10", "reconnect callback not called after a successful reconnect"),
    If(m.can /\ m.cancalls >= 2 /\ e.e \in {"chunk", "sk", "rcn"}, "C08", "source used after the cancellation"),
    If(m.repdue /\ next /\ ~abandoned, "C12", "chunk not reported"),
    If(m.chw # m.chn /\ next /\ ~abandoned, "C26", "chunk not written completely"),
    If(m.chw # m.chn /\ next /\ ~abandoned, "C01", "chunk not written completely") }

VChunk(m, e) == UNION {
    If(e.n > 0 /\ e.p # m.wpos, "C01", "data is stored at another position than the one requested"),
    If(e.n > 0 /\ e.p # m.wpos /\ m.nrc > 0, "C10", "bytes lost or duplicated by a reconnect"),
    VSrc(m, e) }

VSk(m, e) == UNION {
    VSrc(m, e),
    If(~m.cfg.sk, "C05", "range requested from an unseekable source"),
    If(~m.cfg.sk, "C24", "range requested from an unseekable source"),
    If(e.s < 0 \/ (e.en >= 0 /\ e.s > e.en), "C05", "inverted range"),
    If(Known(m) /\ (e.s > CL(m) \/ e.en > CL(m)), "C05", "range beyond the content"),
    If(Known(m) /\ e.en < 0 /\ ~Lim(m), "C05", "open range although the length is known"),
    If(Lim(m) /\ e.en >= 0 /\ e.en # CL(m), "C05", "range ends before the content"),
    If(~Known(m) /\ e.en >= 0, "C05", "closed range although the length is unknown"),
    If(Known(m) /\ ~Lim(m) /\ Rng(e.s, e.en) \cap m.wr # {}, "C05", "stored data requested again"),
    If(Known(m) /\ ~Lim(m) /\ e.en >= 0 /\ e.en # CL(m) /\ e.en \notin m.wr, "C05", "range ends in the middle of missing data") }

VRcn(m, e) == UNION {
    VSrc(m, e),
    If(e.p # m.wpos, "C10", "reconnect at another position than the next missing byte"),
    If(m.pendLow < 0 \/ m.now - m.pendLow < m.cfg.rt - 1, "C10", "reconnect before the retry timeout") }

VFin(m, e) ==
  LET cause == m.can \/ m.skfail \/ m.wfail
  IN UNION {
    If(m.fin # "none", "C09", "finish hook called twice"),
    If(e.out = "cancelled" /\ ~m.can, "C09", "cancelled outcome without cancellation"),
    If(e.out = "cancelled" /\ ~m.can, "C08", "the download stopped without a cancellation"),
    If(e.out = "cancelled" /\ e.ok, "C09", "cancelled outcome without error"),
    If(e.out = "cancelled" /\ m.ph = "complete", "C09", "cancelled outcome of a completed download"),
    If(e.ok /\ ~m.sended, "C09", "success although the source has not ended"),
    If(~e.ok /\ ~cause, "C07", "download failed without a fatal error"),
    If(~e.ok /\ ~cause /\ m.rcfail, "C10", "failed reconnect ended the download"),
    If(~e.ok /\ ~cause /\ ~m.cfg.sk, "C24", "the download of an unseekable source ended in a failure"),
    If(e.ok /\ (m.skfail \/ m.wfail), "C07", "fatal error not passed to the finish hook"),
    If(e.ok /\ (m.skfail \/ m.wfail), "C09", "fatal error not passed to the finish hook"),
    If(~e.ok /\ e.out = "completed" /\ m.can /\ ~m.skfail /\ ~m.wfail, "C09", "cancellation reported as failure"),
    If(e.ok /\ Complete(m) /\ ~(Rng(0, CL(m)) \subseteq m.wr), "C06", "completed although bytes are missing"),
    If(e.ok /\ m.ph # "complete", "C12", "completion not reported"),
    If(~e.ok /\ m.ph = "complete", "C12", "completion reported although the download failed"),
    If(m.repdue /\ e.ok, "C12", "chunk not reported") }

VDone(m, e) == UNION {
    If(m.finr = "none" /\ ~m.down /\ ~m.panic, "C09", "completed before the finish hook"),
    If(m.fin = "none" /\ ~m.down /\ ~m.panic, "C07", "the download task panicked") }

----------------------------------------------------------------------------
(* Storage writer *)

VW(m, e) ==
  LET bad == \/ e.r > e.n
             \/ Len(e.d) # e.r
             \/ \E j \in 1 .. Len(e.d) : e.d[j] # Content(e.p + j - 1)
      ahead == CASE m.rop = "read" -> m.pos + m.rn
                 [] m.rop = "seek" -> Max(m.pos, m.tgt)
                 [] OTHER -> m.pos
  IN UNION {
    If(bad, "C01", "wrong byte stored"),
    If(bad /\ m.nrc > 0, "C10", "wrong byte stored after a reconnect"),
    If(bad /\ Lim(m), "C14", "wrong byte stored in a bounded storage"),
    If(bad, "C26", "wrong byte stored"),
    If(e.n > m.cfg.bs, "C26", "write larger than the batch size"),
    If(m.chw + e.r > m.chn, "C26", "more bytes written than received"),
    If(m.tickdue /\ e.r > 0, "C26", "no yield between two writes"),
    If(m.done, "C09", "write after completion"),
    If(m.can /\ m.cancalls >= 3, "C08", "data written after the cancellation"),
    If(Cap(m) >= 0 /\ e.r > 0 /\ e.p + e.r - ahead > Cap(m), "C14", "unread data exceeds the capacity"),
    If(~m.cfg.sk /\ e.p # Cardinality(m.wr), "C24", "not stored in order") }

----------------------------------------------------------------------------
(* Callbacks *)

VProg(m, e) == UNION {
    If(e.pos # m.wpos, "C12", "reported position is not the write position"),
    If(~(Rng(e.a, e.b) \subseteq m.wr), "C12", "reported chunk is not stored"),
    If(e.a # e.b /\ ~(e.a <= e.pos /\ e.pos <= e.b), "C12", "reported chunk does not reach the write position"),
    If(e.a = e.b /\ m.chw > 0, "C12", "reported chunk is empty although data was stored"),
    If(m.ph = "complete", "C12", "report after completion"),
    If(e.ph = "pre" /\ e.tgt # m.cfg.pf, "C12", "wrong prefetch target"),
    If(e.ph = "pre" /\ m.ph = "down" /\ ~m.sksince, "C12", "back to prefetching without a seek"),
    If(e.ph = "pre" /\ m.ph = "none" /\ m.cfg.pf = 0 /\ ~m.sksince, "C12", "prefetching although no prefetch is configured"),
    If(e.ph = "down" /\ m.ph = "none" /\ m.cfg.pf > m.pfg /\ ~m.sksince /\ ~Lim(m), "C12", "not prefetching although the target is not met"),
    If(e.ph # "complete" /\ ~Lim(m) /\ (e.ck # m.chn \/ ~m.repdue), "C12", "wrong chunk size"),
    If(e.ph # "complete" /\ Lim(m) /\ m.repd + e.ck > m.chn, "C12", "wrong chunk size"),
    If(e.ph = "complete" /\ m.repdue, "C12", "chunk not reported"),
    If(e.ph = "complete" /\ ~m.sended, "C12", "completion reported before the end"),
    If(e.ph = "complete" /\ Complete(m) /\ ~(Rng(0, CL(m)) \subseteq m.wr), "C06", "completion reported although bytes are missing") }

VOnRec(m, e) == If(~m.needrec, "C10", "reconnect callback without a successful reconnect")

----------------------------------------------------------------------------
(* Quiescence: nothing changes anymore unless the environment acts *)

VQuiet(m, e) ==
  LET need == Need(m)
      served == need # {} /\ need \subseteq Have(m) /\ PfMet(m) /\ m.chw = m.chn
      front == IF m.rop = "seek" /\ m.refuse = "" THEN m.tgt ELSE m.pos
      working == e.sp \/ e.hg \/ m.done \/ m.down
      full == Lim(m) /\ m.wpos - front >= Cap(m)
      over == m.done \/ m.down
      starving == ~working /\ ~full
  IN UNION {
    If(e.rb /\ over, "C03", "reader blocked although the download is over"),
    If(e.rb /\ over /\ Failing(m), "C07", "reader blocked although the download failed"),
    If(e.rb /\ over /\ m.can, "C08", "reader blocked although the download was cancelled"),
    If(e.rb /\ over /\ ~m.cfg.sk, "C24", "reader blocked although the download is over"),
    If(e.rb /\ served, "C03", "reader blocked although its data is there"),
    If(e.rb /\ served /\ m.cfg.pf > 0, "C11", "reader blocked although the prefetch is complete"),
    If(e.rb /\ served /\ ~m.cfg.sk, "C24", "reader blocked although the stream caught up"),
    If(e.rb /\ served /\ Lim(m), "C14", "reader blocked although its data is there"),
    If(starving, "C03", "download task waits for nothing"),
    If(starving /\ Cap(m) >= 0, "C14", "download task paused although there is space"),
    If(e.rb /\ m.rop = "read" /\ Cap(m) >= 0 /\ m.rn > Cap(m), "C15", "too large read blocks"),
    If(e.rb /\ m.rop = "seek" /\ m.refuse = "Capacity", "C15", "seek beyond the capacity blocks"),
    If(e.rb /\ m.rop = "seek" /\ m.refuse \in {"InvalidInput", "Unsupported"}, "C04", "invalid seek blocks"),
    If(e.rb /\ e.sp /\ m.cfg.sk /\ m.rop = "seek" /\ m.refuse = "" /\ need # {}
         /\ m.tgt \notin Have(m) /\ m.spos # m.tgt,
       "C05", "the position sought is not requested"),
    If(m.can /\ ~m.done, "C08", "download task still running after the cancellation"),
    If(m.finr # "none" /\ ~m.done, "C09", "completion not announced after the finish hook"),
    If(e.sp /\ ~m.can /\ m.pendAt >= 0 /\ m.now - m.pendAt >= m.cfg.rt + 10, "C10", "no reconnect after the retry timeout"),
    If(e.hg /\ m.call = "rcn" /\ m.now - m.callAt >= m.cfg.rt + 10, "C10", "hung reconnect not abandoned") }

\* Everything was provided that was asked for
VFinal(m, e) ==
  LET open == ~m.done /\ ~m.rgone
      finished == m.done \/ (Lim(m) /\ ~m.eof)
  IN UNION {
    If(e.rb, "C03", "reader never released"),
    If(e.rb /\ Lim(m), "C14", "reader never released"),
    If(e.rb /\ ~m.cfg.sk, "C24", "reader never released"),
    If(e.rb /\ Failing(m), "C07", "reader never released after a failure"),
    If(~e.rb /\ ~m.rgone /\ ~finished, "C09", "download never completes"),
    If(~e.rb /\ ~m.rgone /\ ~finished /\ Complete(m), "C06", "download never completes"),
    If(m.rgone /\ ~m.done /\ ~Lim(m), "C08", "download does not continue after the reader was dropped") }

----------------------------------------------------------------------------
Viols(m, e) ==
  CASE e.e = "rr" -> VRead(m, e)
    [] e.e = "kr" -> VSeek(m, e)
    [] e.e = "rpanic" -> If(TRUE, "C01", "reader panicked") \cup If(TRUE, "C07", "reader panicked")
    [] e.e = "chunk" -> VChunk(m, e)
    [] e.e = "pend" -> VSrc(m, e)
    [] e.e = "serr" -> VSrc(m, e)
    [] e.e = "send" -> VSrc(m, e)
    [] e.e = "sk" -> VSk(m, e)
    [] e.e = "rcn" -> VRcn(m, e)
    [] e.e = "fin" -> VFin(m, e)
    [] e.e = "done" -> VDone(m, e)
    [] e.e = "w" -> VW(m, e)
    [] e.e = "prog" -> VProg(m, e)
    [] e.e = "onrec" -> VOnRec(m, e)
    [] e.e = "quiet" -> VQuiet(m, e)
    [] e.e = "stuck" -> If(TRUE, "C03", "livelock") \cup If(Lim(m), "C14", "livelock")
                        \cup If(Complete(m), "C06", "livelock")
    [] e.e = "final" -> VFinal(m, e)
    [] OTHER -> {}

----------------------------------------------------------------------------
(* Transitions *)

\* User requests restart the prefetch if the previous one was over
SkPrefetch(m) ==
  IF m.aftersend \/ m.rop # "seek" THEN FALSE
  ELSE ~(m.pfopen /\ m.pfg < m.cfg.pf /\ ~m.sended)

CanCall(m) == IF m.can THEN m.cancalls + 1 ELSE 0

Upd(m, e) ==
  CASE e.e = "rc" -> [m EXCEPT !.rop = "read", !.rn = e.n, !.late = m.done,
         !.refuse = IF Cap(m) >= 0 /\ e.n > Cap(m) THEN "Capacity" ELSE ""]
    [] e.e = "rr" -> [m EXCEPT !.rop = "none", !.pos = IF e.ok THEN @ + e.k ELSE @,
         !.eof = e.ok /\ e.k = 0 /\ m.rn > 0,
         !.refused = @ \/ (~e.ok /\ m.refuse = "Capacity")]
    [] e.e = "kc" -> [m EXCEPT !.rop = "seek", !.late = m.done, !.refuse = SeekRefusal(m, e),
         !.tgt = IF SeekRefusal(m, e) \in {"Unsupported", "InvalidInput"} THEN -1 ELSE SeekTarget(m, e)]
    [] e.e = "kr" -> [m EXCEPT !.rop = "none", !.tgt = -1, !.refuse = "",
         !.pos = IF e.ok THEN e.p ELSE @, !.seeked = @ \/ e.ok,
         !.refused = @ \/ (~e.ok /\ m.refuse = "Capacity")]
    [] e.e = "drop" -> [m EXCEPT !.rgone = TRUE, !.can = @ \/ (m.cfg.cod /\ m.fin = "none" /\ ~m.done)]
    [] e.e = "cancel" -> [m EXCEPT !.can = @ \/ (m.fin = "none" /\ ~m.done)]
    [] e.e = "down" -> [m EXCEPT !.down = TRUE]
    [] e.e = "panic" -> [m EXCEPT !.panic = TRUE]
    [] e.e = "chunk" -> [m EXCEPT !.dl = @ \cup Rng(e.p, e.p + e.n), !.dls = @ \cup Rng(e.p, e.p + e.n), !.spos = e.p + e.n,
         !.pendAt = -1, !.pendLow = -1, !.aftersend = FALSE, !.pfg = @ + e.n,
         !.chn = e.n, !.chw = 0, !.repdue = TRUE, !.repd = 0, !.cancalls = CanCall(m),
         !.tickdue = FALSE]
    [] e.e = "pend" -> [m EXCEPT !.pendAt = m.now, !.aftersend = FALSE,
         !.pendLow = IF @ < 0 THEN m.now ELSE @]
    [] e.e = "serr" -> [m EXCEPT !.pendAt = -1]
    [] e.e = "send" -> [m EXCEPT !.sended = TRUE, !.aftersend = TRUE, !.pendAt = -1, !.pendLow = -1]
    [] e.e = "sk" -> [m EXCEPT !.call = "sk", !.callAt = m.now, !.nsk = @ + 1,
         !.pfopen = SkPrefetch(m), !.aftersend = FALSE, !.sksince = TRUE,
         !.av = m.wr, !.wrs = {}, !.dls = {}, !.pfg = 0, !.pendAt = -1, !.pendLow = -1,
         !.spos = e.s, !.sended = FALSE, !.cancalls = CanCall(m),
         !.chn = 0, !.chw = 0, !.repdue = FALSE]
    [] e.e = "skr" -> [m EXCEPT !.call = "none", !.skfail = @ \/ (~e.ok /\ ~e.to)]
    [] e.e = "rcn" -> [m EXCEPT !.call = "rcn", !.callAt = m.now, !.nrc = @ + 1, !.pendAt = -1,
         !.pendLow = -1, !.cancalls = CanCall(m)]
    [] e.e = "rcr" -> [m EXCEPT !.call = "none", !.needrec = e.ok, !.rcfail = ~e.ok,
         !.sended = IF e.ok THEN FALSE ELSE @, !.spos = IF e.ok THEN m.wpos ELSE @]
    [] e.e = "onrec" -> [m EXCEPT !.needrec = FALSE]
    [] e.e = "w" -> [m EXCEPT !.wr = @ \cup Rng(e.p, e.p + e.r), !.wrs = @ \cup Rng(e.p, e.p + e.r),
         !.wpos = e.p + e.r, !.hi = Max(@, e.p + e.r), !.wfail = @ \/ ~e.ok, !.chw = @ + e.r,
         !.tickdue = e.r > 0]
    [] e.e = "ws" -> [m EXCEPT !.wpos = e.p, !.hi = IF e.p < @ - Cap(m) THEN e.p ELSE @]
    [] e.e = "tick" -> [m EXCEPT !.tickdue = FALSE]
    [] e.e = "prog" -> [m EXCEPT !.ph = e.ph, !.sksince = FALSE, !.repd = @ + Max(e.ck, 0),
         !.repdue = IF e.ph # "complete" /\ m.repd + e.ck >= m.chn THEN FALSE ELSE @]
    [] e.e = "fin" -> [m EXCEPT !.fin = IF e.ok THEN "ok" ELSE "err", !.fout = e.out]
    [] e.e = "finr" -> [m EXCEPT !.finr = IF e.ok THEN "ok" ELSE "err"]
    [] e.e = "done" -> [m EXCEPT !.done = TRUE]
    [] e.e = "adv" -> [m EXCEPT !.now = @ + e.ms]
    [] e.e = "drain" -> [m EXCEPT !.drain = TRUE]
    [] OTHER -> m
=============================================================================
