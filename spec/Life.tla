---------------------------------- MODULE Life ----------------------------------
(***************************************************************************)
(* How a stream comes to be and how it ends, seen from outside (C27, and   *)
(* C08, C09 for what they say about tokens, handles and the finish hook).  *)
(*                                                                         *)
(* The monitor follows one stream from the attempt to create it: the       *)
(* source, then the storage, then the download task; the things the user   *)
(* holds (reader, token, handles); and why the download is over. After     *)
(* every operation the scenario lets everything happen that can happen, so *)
(* that each observation `st` has exactly one right answer.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

If(c, p, w) == IF c THEN {<<p, w>>} ELSE {}

Initial(c) ==
  [cfg |-> c,
   made |-> c.entry # "new",  \* the source exists (or existed)
   prov |-> 0,                \* storages asked for
   stor |-> FALSE,            \* the storage exists
   res |-> "",                \* outcome of the creation
   why |-> "",                \* why the download is over: "completed", "cancelled"
   rel |-> c.hook # "slow",   \* the finish hook may return
   held |-> TRUE,             \* the user has the reader
   waits |-> 0, fins |-> 0, gone |-> {},
   given |-> 0, read |-> 0]

Creatable(c) == c.create /\ c.stor
\* No more data is downloaded
Stopped(m) == m.res = "ok" /\ m.why # ""
\* The finish hook has returned, too
Over(m) == Stopped(m) /\ m.rel

First(m, why) == IF m.why = "" THEN [m EXCEPT !.why = why] ELSE m

Upd(m, e) ==
  CASE e.e = "create" -> [m EXCEPT !.made = e.ok]
    [] e.e = "prov" -> [m EXCEPT !.prov = @ + 1, !.stor = e.ok]
    [] e.e = "new" -> [m EXCEPT !.res = IF e.ok THEN "ok" ELSE e.kind, !.held = e.ok]
    [] e.e = "give" -> IF e.n = 0 THEN First(m, "completed")
                       ELSE IF m.why = "" THEN [m EXCEPT !.given = @ + e.n] ELSE m
    [] e.e = "rel" -> [m EXCEPT !.rel = TRUE]
    [] e.e = "cancel" -> First(m, "cancelled")
    [] e.e = "drop" -> IF m.cfg.cod THEN First([m EXCEPT !.held = FALSE], "cancelled") ELSE [m EXCEPT !.held = FALSE]
    [] e.e = "wait" -> [m EXCEPT !.waits = @ + 1]
    [] e.e = "fin" -> [m EXCEPT !.fins = @ + 1]
    [] e.e = "gone" -> [m EXCEPT !.gone = @ \cup {e.what}]
    [] e.e = "rd" -> [m EXCEPT !.read = @ + (IF e.ok THEN e.k ELSE 0)]
    [] OTHER -> m

\* What the end of the download is an obligation of
Ends(m) == {"C27"} \cup (CASE m.why = "completed" -> {"C09"} [] m.why = "cancelled" -> {"C08", "C09"} [] OTHER -> {"C09"})
All(c, ps, w) == IF c THEN {<<p, w>> : p \in ps} ELSE {}

VNew(m, e) ==
  LET c == m.cfg IN
  If(e.ok # Creatable(c), "C27", "creation succeeds or fails although its parts don't")
  \cup If(~e.ok /\ ~c.create /\ e.kind # "stream", "C27", "a source that cannot be created is reported as something else")
  \cup If(~e.ok /\ c.create /\ ~c.stor /\ e.kind # "storage", "C27", "a storage that cannot be created is reported as something else")
  \cup If(~e.ok /\ e.text # (IF c.create THEN "no storage today" ELSE "decoded: no source today"),
          "C27", "the error doesn't carry the cause")
  \cup If(e.ok /\ e.cl # c.cl, "C27", "the stream has another length than its source")

VProv(m, e) ==
  If(~m.made, "C27", "a storage is created without a source")
  \cup If(m.prov > 0, "C27", "more than one storage is created")
  \cup If(e.cl # m.cfg.cl, "C27", "the storage is created for another length")

VState(m, e) ==
  All(\E i \in DOMAIN e.waits : e.waits[i] /\ ~Over(m), Ends(m), "a handle reports completion before the download is over")
  \cup All(\E i \in DOMAIN e.waits : ~e.waits[i] /\ Over(m), Ends(m), "a handle doesn't report completion after the download is over")
  \cup All(m.cfg.entry # "ar" /\ Stopped(m) /\ m.fins # 1, Ends(m), "the finish hook didn't run once")
  \cup All("source" \notin m.gone /\ Over(m), Ends(m), "the source is kept after the download is over")
  \cup If("source" \in m.gone /\ m.res = "ok" /\ ~Over(m), "C27", "the source is dropped during the download")
  \cup If(m.made /\ "source" \notin m.gone /\ m.res # "ok", "C27", "the source is kept although the creation failed")
  \cup If("provider" \notin m.gone /\ m.res # "ok", "C27", "the storage provider is kept although the creation failed")

VFin(m, e) ==
  If(m.res # "ok", "C27", "the finish hook runs for a stream that was never created")
  \cup All(m.res = "ok" /\ m.why = "", {"C09", "C27"}, "the finish hook runs during the download")
  \cup All(m.why # "" /\ (e.done # (m.why = "completed") \/ e.ok # (m.why = "completed")), {"C09", "C27"},
           "the finish hook gets the wrong outcome")

VRead(m, e) ==
  If(e.ok /\ ~e.good, "C27", "a created stream delivers other bytes than its source")
  \cup If(e.ok /\ e.k # e.n, "C27", "a read of what was delivered is short")
  \cup If(~e.ok /\ m.why # "cancelled" /\ ~(m.why = "completed" /\ m.cfg.hook = "err"), "C27", "a read fails without a reason")
  \cup If(e.ok /\ e.n > 0 /\ Over(m) /\ m.why = "cancelled", "C08", "a read succeeds after the cancellation")
  \cup If(e.ok /\ e.n > 0 /\ Over(m) /\ m.cfg.hook = "err", "C09", "a read succeeds although the finish hook failed")

Viols(m, e) ==
  CASE e.e = "new" -> VNew(m, e)
    [] e.e = "prov" -> VProv(m, e)
    [] e.e = "st" -> VState(m, e)
    [] e.e = "fin" -> VFin(m, e)
    [] e.e = "rd" -> VRead(m, e)
    [] e.e = "hung" -> {<<"C27", "a read of what was delivered hangs">>}
    [] e.e = "rpanic" -> {<<"C27", "panicked">>}
    [] OTHER -> {}
=============================================================================
