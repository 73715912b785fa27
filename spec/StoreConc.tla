------------------------------- MODULE StoreConc -------------------------------
(***************************************************************************)
(* The ring used by a reader and a writer at the same time. After any few  *)
(* operations one of each starts: it takes the lock, looks at the          *)
(* positions, copies byte by byte, publishes its new position and lets go  *)
(* of the lock. TLC interleaves them; the two results have to be those of  *)
(* one order (Store's event `both`). Every start becomes a test of the     *)
(* real storage in which one of the two is stopped within the other's way. *)
(***************************************************************************)
EXTENDS StoreModel

CONSTANTS MaxPrefix

\* d: the ring's own positions; r, w: the operations in progress
VARIABLES d, r, w, lock, ops
cvars == <<m, cells, viol, op, d, r, w, lock, ops>>

Idle == [at |-> "idle", kind |-> "", n |-> 0, o |-> 0, k |-> 0, i |-> 0, from |-> 0, data |-> <<>>, ok |-> TRUE]

CInit == /\ Init /\ d = [rp |-> 0, wp |-> 0, hs |-> 0, he |-> 0]
         /\ r = Idle /\ w = Idle /\ lock = "" /\ ops = <<>>

Before == /\ r.at = "idle" /\ w.at = "idle" /\ Len(ops) < MaxPrefix
          /\ \/ DoRead
             \/ DoWrite
             \/ \E o \in {-1, 1} : Step(SeekResp("rs", "c", o), "rs c " \o ToString(o)) /\ UNCHANGED cells
             \/ \E o \in {-2, 1} : Step(SeekResp("ws", "c", o), "ws c " \o ToString(o)) /\ UNCHANGED cells
          /\ ops' = Append(ops, op')
          /\ d' = [rp |-> m'.rp, wp |-> m'.wp, hs |-> m'.hs, he |-> m'.he]
          /\ UNCHANGED <<r, w, lock>>

Start == /\ r.at = "idle" /\ w.at = "idle"
         /\ r' \in {[Idle EXCEPT !.at = "lock", !.kind = "r", !.n = n] : n \in 1 .. Cap}
                   \cup {[Idle EXCEPT !.at = "lock", !.kind = "rs", !.o = o] : o \in {-1, 1}}
         /\ w' \in {[Idle EXCEPT !.at = "lock", !.kind = "w", !.n = n] : n \in 1 .. Cap}
                   \cup {[Idle EXCEPT !.at = "lock", !.kind = "ws", !.o = o] : o \in {-2, 1}}
         /\ UNCHANGED <<m, cells, viol, op, d, lock, ops>>

\* Looking at the positions; the lock is kept unless there is nothing to copy
Lock(who, x) == lock = "" /\ x.at = "lock"
RLock ==
  /\ Lock("r", r)
  /\ IF r.kind = "rs"
     THEN LET t == d.rp + r.o IN
          /\ d' = IF t >= 0 THEN [d EXCEPT !.rp = t] ELSE d
          /\ r' = [r EXCEPT !.at = "over", !.ok = (t >= 0), !.from = d'.rp]
          /\ UNCHANGED lock
     ELSE LET ok == d.rp >= d.hs
              k == IF ok THEN Min(r.n, Max(0, d.he - d.rp)) ELSE 0 IN
          /\ r' = [r EXCEPT !.at = IF k > 0 THEN "copy" ELSE "over", !.ok = ok, !.k = k, !.from = d.rp]
          /\ IF Bug = "ahead" THEN d' = [d EXCEPT !.rp = @ + k] /\ UNCHANGED lock
             ELSE lock' = (IF k > 0 THEN "r" ELSE "") /\ UNCHANGED d
  /\ UNCHANGED <<m, cells, viol, op, w, ops>>
RCopy ==
  /\ r.at = "copy" /\ r.i < r.k
  /\ r' = [r EXCEPT !.i = @ + 1, !.data = Append(@, cells[Cell(r.from + r.i)])]
  /\ UNCHANGED <<m, cells, viol, op, d, w, lock, ops>>
RDone ==
  /\ r.at = "copy" /\ r.i = r.k
  /\ r' = [r EXCEPT !.at = "over"]
  /\ IF Bug = "ahead" THEN UNCHANGED <<d, lock>> ELSE d' = [d EXCEPT !.rp = @ + r.k] /\ lock' = ""
  /\ UNCHANGED <<m, cells, viol, op, w, ops>>

Published(k) == LET e2 == Max(d.he, d.wp + k) IN
                [d EXCEPT !.wp = @ + k, !.he = e2, !.hs = Max(@, e2 - Z)]
WLock ==
  /\ Lock("w", w)
  /\ IF w.kind = "ws"
     THEN LET t == d.wp + w.o IN
          /\ d' = IF t < 0 THEN d ELSE IF t < d.hs THEN [d EXCEPT !.wp = t, !.hs = t, !.he = t] ELSE [d EXCEPT !.wp = t]
          /\ w' = [w EXCEPT !.at = "over", !.ok = (t >= 0), !.from = d'.wp]
          /\ UNCHANGED lock
     ELSE LET k == Min(w.n, Max(0, Z - Max(0, d.wp - d.rp))) IN
          /\ w' = [w EXCEPT !.at = IF k > 0 THEN "copy" ELSE "over", !.k = k, !.from = d.wp]
          /\ IF Bug = "publish" THEN d' = (IF k > 0 THEN Published(k) ELSE d) /\ UNCHANGED lock
             ELSE lock' = (IF k > 0 THEN "w" ELSE "") /\ UNCHANGED d
  /\ UNCHANGED <<m, cells, viol, op, r, ops>>
WCopy ==
  /\ w.at = "copy" /\ w.i < w.k
  /\ w' = [w EXCEPT !.i = @ + 1]
  /\ cells' = [cells EXCEPT ![Cell(w.from + w.i)] = 2]
  /\ UNCHANGED <<m, viol, op, d, r, lock, ops>>
WDone ==
  /\ w.at = "copy" /\ w.i = w.k
  /\ w' = [w EXCEPT !.at = "over"]
  /\ IF Bug = "publish" THEN UNCHANGED <<d, lock>> ELSE d' = Published(w.k) /\ lock' = ""
  /\ UNCHANGED <<m, cells, viol, op, r, ops>>

REvent == IF r.kind = "rs"
          THEN [e |-> "rs", w |-> "c", o |-> r.o, ok |-> r.ok, p |-> IF r.ok THEN r.from ELSE 0, rp |-> d.rp, wp |-> 0]
          ELSE [e |-> "rd", n |-> r.n, ok |-> r.ok, k |-> r.k, d |-> r.data, err |-> IF r.ok THEN "" ELSE "InvalidInput",
                rp |-> d.rp, wp |-> 0]
WEvent == IF w.kind = "ws"
          THEN [e |-> "ws", w |-> "c", o |-> w.o, ok |-> w.ok, p |-> IF w.ok THEN w.from ELSE 0, rp |-> 0, wp |-> d.wp]
          ELSE [e |-> "wr", ok |-> TRUE, r |-> w.k, d |-> [j \in 1 .. w.n |-> 2], err |-> "", rp |-> 0, wp |-> d.wp]
Judge == /\ r.at = "over" /\ w.at = "over"
         /\ LET e == [e |-> "both", r |-> REvent, w |-> WEvent] IN viol' = Viols(m, e) /\ m' = Upd(m, e)
         /\ r' = [r EXCEPT !.at = "judged"] /\ UNCHANGED <<cells, op, d, w, lock, ops>>

CNext == Before \/ Start \/ RLock \/ RCopy \/ RDone \/ WLock \/ WCopy \/ WDone \/ Judge
CSpec == CInit /\ [][CNext]_cvars

\* The ring's own positions are those of the specification
Agrees == r.at = "judged" => d = [rp |-> m.rp, wp |-> m.wp, hs |-> m.hs, he |-> m.he]

Label(x) == IF x.kind \in {"r", "w"} THEN x.kind \o " " \o ToString(x.n) ELSE x.kind \o " c " \o ToString(x.o)
CCases == (r.at = "lock" /\ w.at = "lock") =>
  \A first \in {"r", "w"}, k \in 1 .. 3 :
    PrintT("CASE " \o ToJson([cfg |-> [kind |-> Kind, cl |-> -1, cap |-> Cap, accept |-> 1, place |-> 0, base |-> 0],
      decs |-> ops \o <<"p " \o first \o " " \o ToString(k) \o " | " \o Label(r) \o " | " \o Label(w),
                        "r " \o ToString(Cap)>>]))
=============================================================================
