------------------------------- MODULE StoreModel -------------------------------
(***************************************************************************)
(* A design of the storages, checked against the obligations of Store.     *)
(*                                                                         *)
(* The ring is modelled the way it is implemented: an inner storage of     *)
(* `size` cells addressed by position modulo size, with the held range     *)
(* tracked separately. TLC explores every sequence of operations within    *)
(* the bounds; NoViolation states that no response of the design breaks an *)
(* obligation. The same state graph, with Edges printed, is turned into    *)
(* one test of the real storage per transition.                            *)
(***************************************************************************)
EXTENDS Store, TLC, Json

\* Cl = 1000 stands for an unknown length
CONSTANTS Kind, Cl, Cap, MaxPos, MaxLen, Values, Bug

VARIABLES m, cells, viol, op
vars == <<m, cells, viol, op>>

Cfg == [kind |-> Kind, cl |-> IF Cl = 1000 THEN -1 ELSE Cl, cap |-> Cap]
Z == Size(Cfg)
Cell(p) == IF Ring(Cfg) THEN p % Z ELSE p
Cells == IF Ring(Cfg) THEN 0 .. (Z - 1) ELSE 0 .. (MaxPos + MaxLen)

Init == /\ m = Initial(Cfg)
        /\ cells = [c \in Cells |-> 0]
        /\ viol = {}
        /\ op = "init"

\* What the design answers
ReadResp(n) ==
  LET refused == IF Bug = "stale" THEN FALSE ELSE ReadRefused(m, n)
      k == Min(n, Max(0, m.he - m.rp))
      ok == ~refused
      d == [j \in 1 .. k |-> cells[Cell(m.rp + j - 1)]]
  IN [e |-> "rd", n |-> n, ok |-> ok, k |-> IF ok THEN k ELSE 0, d |-> IF ok THEN d ELSE <<>>,
      err |-> IF ok THEN "" ELSE "InvalidInput", rp |-> m.rp + (IF ok THEN k ELSE 0), wp |-> m.wp]

WriteLen(n) == IF Ring(Cfg)
               THEN Min(n, IF Bug = "nospace" THEN Z ELSE Max(0, Z - Max(0, m.wp - m.rp)))
               ELSE n
WriteResp(n, v) ==
  LET r == WriteLen(n)
  IN [e |-> "wr", ok |-> TRUE, r |-> r, d |-> [j \in 1 .. n |-> v], err |-> "", rp |-> m.rp, wp |-> m.wp + r]

SeekResp(who, w, o) ==
  LET cur == IF who = "rs" THEN m.rp ELSE m.wp
      t == IF w = "s" THEN o ELSE cur + o
      ok == t >= 0
      np == IF ok THEN t ELSE cur
  IN [e |-> who, w |-> w, o |-> o, ok |-> ok, p |-> IF ok THEN t ELSE 0,
      rp |-> IF who = "rs" THEN np ELSE m.rp, wp |-> IF who = "ws" THEN np ELSE m.wp]

Step(e, label) ==
  /\ viol' = Viols(m, e)
  /\ m' = Upd(m, e)
  /\ m'.rp <= MaxPos /\ m'.wp <= MaxPos
  /\ op' = label

DoRead == \E n \in 0 .. MaxLen :
            LET e == ReadResp(n) IN Step(e, "r " \o ToString(n)) /\ UNCHANGED cells
DoWrite == \E n \in 0 .. MaxLen, v \in Values :
            LET e == WriteResp(n, v) IN
            /\ Step(e, "w " \o ToString(n))
            /\ cells' = [c \in Cells |-> IF \E j \in 0 .. (e.r - 1) : Cell(m.wp + j) = c THEN v ELSE cells[c]]
DoSeek == \E who \in {"rs", "ws"} :
            \/ \E o \in 0 .. MaxPos : Step(SeekResp(who, "s", o), who \o " s " \o ToString(o)) /\ UNCHANGED cells
            \/ \E o \in {-2, -1, 1, 2} : Step(SeekResp(who, "c", o), who \o " c " \o ToString(o)) /\ UNCHANGED cells

Next == DoRead \/ DoWrite \/ DoSeek
Spec == Init /\ [][Next]_vars

NoViolation == viol = {}

\* The label of the last step doesn't distinguish states
View == <<m, cells, viol>>

\* Every position held that was written has its last value in its cell
Exact == \A p \in DOMAIN m.val : p \in Rng(m.hs, m.he) /\ cells[Cell(p)] = m.val[p]
\* Two held positions never share a cell
OneCell == Ring(Cfg) => m.he - m.hs <= Z

Key(x) == ToString(<<x.rp, x.wp, x.hs, x.he, DOMAIN x.val>>)
Edges == PrintT("EDGE " \o ToJson([a |-> Key(m), o |-> op', b |-> Key(m')]))
=============================================================================
