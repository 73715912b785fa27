--------------------------------- MODULE Store ---------------------------------
(***************************************************************************)
(* The storage layer: a reader and a writer with independent positions     *)
(* over the same bytes.                                                    *)
(*                                                                         *)
(*   flat   memory and temp storage: a growing byte array (C16)            *)
(*   ring   bounded storage: only the newest `size` positions are held     *)
(*          and nothing between the positions is overwritten (C13)         *)
(*   adaptive storage is one of the two, depending on the length (C17)     *)
(*                                                                         *)
(* Upd(m, e) is the state after the operation e with its observed result;  *)
(* Viols(m, e) names the obligations that the observed result breaks.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Rng(a, b) == a .. (b - 1)
If(c, p, w) == IF c THEN {<<p, w>>} ELSE {}

Adaptive(c) == c.kind \in {"adapt", "adaptmt"}
\* Which provider an adaptive storage has to use
Choice(c) == IF c.cl < 0 THEN "bounded" ELSE IF c.cl <= c.cap THEN "fixed" ELSE "variable"
Ring(c) == c.kind \in {"bmem", "btemp", "bshort"} \/ (Adaptive(c) /\ c.cl < 0)
Size(c) == IF c.cl < 0 THEN c.cap ELSE Min(c.cap, c.cl)
\* The property an obligation on this storage belongs to
Prop(c) == IF Adaptive(c) THEN {"C17"} \cup (IF Ring(c) THEN {"C13"} ELSE {"C16"})
           ELSE IF Ring(c) THEN {"C13"} ELSE {"C16"}
\* The capacity that applies to a stream of length c.cl
Capacity(c) == IF Ring(c) THEN c.cap ELSE -1

\* Positions are counted from where the reader and the writer start, which may
\* be far from the beginning: then no position that occurs is below 0
Far(c) == "far" \in DOMAIN c /\ c.far
Origin(c) == IF Far(c) THEN -800000 ELSE 0
Initial(c) == [
    cfg |-> c,
    rp |-> 0,             \* reader position
    wp |-> 0,             \* writer position
    hs |-> Origin(c), he |-> Origin(c),   \* positions held: hs .. he-1 (flat: hs = 0)
    val |-> <<>>,         \* position -> byte, for held positions that were written
    provs |-> 0]

NoVal == [x \in {} |-> 0]
Put(val, p, d) == [x \in DOMAIN val \cup Rng(p, p + Len(d)) |->
                     IF x \in Rng(p, p + Len(d)) THEN d[x - p + 1] ELSE val[x]]
Keep(val, a) == [x \in {y \in DOMAIN val : y >= a} |-> val[x]]

Fail(m, c, w) == IF c THEN {<<p, w>> : p \in Prop(m.cfg)} ELSE {}

----------------------------------------------------------------------------
\* Bytes the writer may write without touching what was not read
Free(m) == Size(m.cfg) - Max(0, m.wp - m.rp)
Accepts(m, n) == IF Ring(m.cfg) THEN Min(n, Max(0, Free(m))) ELSE n

ReadRefused(m, n) == Ring(m.cfg) /\ (n > Size(m.cfg) \/ m.rp < m.hs)
Readable(m, n) == Min(n, Max(0, m.he - m.rp))

SeekTo(m, cur, e) == CASE e.w = "s" -> e.o [] e.w = "c" -> cur + e.o [] OTHER -> m.he + e.o
SeekBad(m, cur, e) ==
  IF e.w = "e"
  THEN IF Ring(m.cfg) THEN e.ok
       \* a storage created for a known length may already have that length
       ELSE IF e.ok THEN e.p \notin {m.he + e.o, Max(m.he, m.cfg.cl) + e.o}
                    ELSE m.he + e.o >= Origin(m.cfg)
  ELSE IF SeekTo(m, cur, e) < Origin(m.cfg) THEN e.ok ELSE ~e.ok \/ e.p # SeekTo(m, cur, e)

VRead(m, e) == UNION {
    Fail(m, ReadRefused(m, e.n) /\ e.ok, "read of evicted data or beyond the capacity accepted"),
    Fail(m, ReadRefused(m, e.n) /\ ~e.ok /\ e.err # "InvalidInput", "wrong error for a refused read"),
    \* positions that were skipped hold nothing, reading them may fail
    Fail(m, ~ReadRefused(m, e.n) /\ ~e.ok /\ Rng(m.rp, m.rp + Readable(m, e.n)) \subseteq DOMAIN m.val, "read failed"),
    Fail(m, ~ReadRefused(m, e.n) /\ e.ok /\ e.k # Readable(m, e.n), "wrong number of bytes read"),
    Fail(m, e.ok /\ \E j \in 1 .. Len(e.d) :
              m.rp + j - 1 \in DOMAIN m.val /\ e.d[j] # m.val[m.rp + j - 1], "wrong byte read"),
    Fail(m, e.rp # m.rp + (IF e.ok THEN e.k ELSE 0) \/ e.wp # m.wp, "read moved a position wrongly") }

VWrite(m, e) == UNION {
    Fail(m, ~e.ok, "write failed"),
    Fail(m, e.ok /\ e.r > Accepts(m, Len(e.d)), "write overwrites unread data"),
    Fail(m, e.ok /\ e.r < Accepts(m, Len(e.d)), "write refused although there is space"),
    Fail(m, e.wp # m.wp + (IF e.ok THEN e.r ELSE 0) \/ e.rp # m.rp, "write moved a position wrongly") }

VSeekR(m, e) == UNION {
    Fail(m, SeekBad(m, m.rp, e), "wrong result of a reader seek"),
    Fail(m, e.rp # (IF e.ok THEN e.p ELSE m.rp) \/ e.wp # m.wp, "reader seek moved a position wrongly") }

VSeekW(m, e) == UNION {
    Fail(m, SeekBad(m, m.wp, e), "wrong result of a writer seek"),
    Fail(m, e.wp # (IF e.ok THEN e.p ELSE m.wp) \/ e.rp # m.rp, "writer seek moved a position wrongly") }

\* An inner provider is turned into a reader and a writer
VProv(m, e) ==
  LET c == m.cfg
      want == IF Adaptive(c) THEN (IF Choice(c) = "variable" THEN "variable" ELSE "fixed") ELSE "inner"
  IN UNION {
    Fail(m, m.provs > 0, "more than one storage created"),
    Fail(m, e.name # want, "wrong storage chosen"),
    Fail(m, e.cl # (IF Ring(c) THEN Size(c) ELSE c.cl), "wrong length for the inner storage") }

VCap(m, e) == IF Adaptive(m.cfg) \/ Ring(m.cfg)
              THEN If(e.v # Capacity(m.cfg), "C15", "wrong capacity reported") \cup Fail(m, e.v # Capacity(m.cfg), "wrong capacity reported")
              ELSE If(e.v # -1, "C15", "wrong capacity reported")

Viol(m, e) ==
  CASE e.e = "rd" -> VRead(m, e)
    [] e.e = "wr" -> VWrite(m, e)
    [] e.e = "rs" -> VSeekR(m, e)
    [] e.e = "ws" -> VSeekW(m, e)
    [] e.e = "prov" -> VProv(m, e)
    [] e.e = "cap" -> VCap(m, e)
    [] e.e = "opened" -> Fail(m, ~e.ok, "storage cannot be created")
    [] e.e = "file" -> UNION {
         Fail(m, ~e.placed, "temp file has another location or name than configured"),
         Fail(m, ~e.removed, "temp file not removed") }
    [] e.e = "rpanic" -> Fail(m, TRUE, "storage panicked")
    [] OTHER -> {}

----------------------------------------------------------------------------
Wrote(m, r, d) ==
  LET e2 == IF r = 0 THEN m.he ELSE Max(m.he, m.wp + r)
      s2 == IF Ring(m.cfg) /\ r > 0 THEN Max(m.hs, e2 - Size(m.cfg)) ELSE m.hs
  IN [m EXCEPT !.wp = @ + r, !.he = e2, !.hs = s2,
               !.val = Keep(Put(@, m.wp, SubSeq(d, 1, r)), s2)]

SoughtW(m, p) ==
  IF Ring(m.cfg) /\ p < m.hs
  THEN [m EXCEPT !.wp = p, !.hs = p, !.he = p, !.val = NoVal]
  ELSE [m EXCEPT !.wp = p]

After(m, e) ==
  CASE e.e = "rd" -> [m EXCEPT !.rp = e.rp]
    [] e.e = "wr" -> IF e.ok THEN Wrote(m, Min(e.r, Len(e.d)), e.d) ELSE m
    [] e.e = "rs" -> IF e.ok THEN [m EXCEPT !.rp = e.p] ELSE m
    [] e.e = "ws" -> IF e.ok THEN SoughtW(m, e.p) ELSE m
    [] e.e = "prov" -> [m EXCEPT !.provs = @ + 1]
    [] OTHER -> m

----------------------------------------------------------------------------
\* Operations of the reader and the writer at the same time: their results
\* are those of one order (C29). Each knows its own position only.
AsSeen(m, e) == IF e.e \in {"rd", "rs"} THEN [e EXCEPT !.wp = m.wp] ELSE [e EXCEPT !.rp = m.rp]
InOrder(m, a, b) == LET x == AsSeen(m, a)
                        t == After(m, x)
                    IN Viol(m, x) = {} /\ Viol(t, AsSeen(t, b)) = {}
Then(m, a, b) == LET t == After(m, AsSeen(m, a)) IN After(t, AsSeen(t, b))

Viols(m, e) ==
  IF e.e = "hung" THEN {<<"C29", "two concurrent operations block each other">>}
  ELSE IF e.e # "both" THEN Viol(m, e)
  ELSE If(~InOrder(m, e.r, e.w) /\ ~InOrder(m, e.w, e.r), "C29",
          "no order of two concurrent operations explains their results")
Upd(m, e) ==
  IF e.e # "both" THEN After(m, e)
  ELSE IF InOrder(m, e.w, e.r) THEN Then(m, e.w, e.r) ELSE Then(m, e.r, e.w)
=============================================================================
