------------------------------ MODULE RegistryModel ------------------------------
(***************************************************************************)
(* A design of the registry: entries are kept in a list, each new one is   *)
(* added at the end and the list sorted by priority; a lookup scans the    *)
(* list. TLC builds every registry within the bounds and compares lookups  *)
(* with the reference of Registry. Every registry becomes a test.          *)
(***************************************************************************)
EXTENDS Registry, TLC, Json

CONSTANTS MaxEntries, MaxRules, Priorities, RuleNames, Bug

VARIABLES es, order
vars == <<es, order>>

Rule(t, m, v, dm, dv) == [t |-> t, m |-> m, v |-> v, dm |-> dm, dv |-> dv]
AllRules ==
  [pa |-> Rule("prefix", "", "a:", "any", ""), pe |-> Rule("prefix", "", "", "any", ""),
   ph |-> Rule("prefix", "", "http", "any", ""), sa |-> Rule("string", "any", "", "any", ""),
   sf |-> Rule("string", "eq", "foo", "any", ""), ua |-> Rule("url", "any", "", "any", ""),
   uh |-> Rule("url", "http", "", "any", ""), ud |-> Rule("url", "any", "", "eq", "h.com")]

Url(t, s, h, d) == [text |-> t, url |-> TRUE, scheme |-> s, hasdom |-> h, dom |-> d, norm |-> t]
Str(t) == [text |-> t, url |-> FALSE, scheme |-> "", hasdom |-> FALSE, dom |-> "", norm |-> t]
Parses == <<Str("foo"), Url("a:foo", "a", FALSE, ""), Url("a:a:foo", "a", FALSE, ""),
            Url("http://h.com/", "http", TRUE, "h.com"), Str("://h.com/"),
            Url("a:http://h.com/", "a", FALSE, ""), Str("bar"), Url("ftp://x.org/", "ftp", TRUE, "x.org")>>
Texts == <<"foo", "a:foo", "a:a:foo", "http://h.com/", "a:http://h.com/", "bar", "ftp://x.org/">>

Query(t) == [e |-> "q", parsed |-> FALSE, raw |-> t, hasp |-> FALSE, prefix |-> "", parses |-> Parses]

RuleSeqs == UNION {[1 .. k -> {AllRules[r] : r \in RuleNames}] : k \in 0 .. MaxRules}

RECURSIVE Sorted(_, _)
\* Inserts the last entry after those of the same priority
Sorted(o, i) ==
  IF o = <<>> THEN <<i>>
  ELSE IF es'[i].prio < es'[o[Len(o)]].prio \/ (Bug = "unstable" /\ es'[i].prio = es'[o[Len(o)]].prio)
       THEN Append(Sorted(SubSeq(o, 1, Len(o) - 1), i), o[Len(o)])
       ELSE Append(o, i)

Init == es = <<>> /\ order = <<>>
Next == /\ Len(es) < MaxEntries
        /\ \E p \in Priorities, rs \in RuleSeqs :
             /\ es' = Append(es, [prio |-> p, rules |-> rs])
             /\ order' = IF Bug = "unsorted" THEN Append(order, Len(es) + 1) ELSE Sorted(order, Len(es) + 1)
Spec == Init /\ [][Next]_vars

RECURSIVE Scan(_, _)
Scan(o, q) == IF o = <<>> THEN 0 ELSE IF EntryMatches(es[o[1]], q) THEN o[1] ELSE Scan(Tail(o), q)

Finds == \A k \in DOMAIN Texts : Scan(order, Query(Texts[k])) = Chosen(es, Query(Texts[k]))

\* What a handler gets converts back to the text that was looked up, and nothing is lost
Lossless == \A k \in DOMAIN Texts :
              LET q == Query(Texts[k]) IN
              Chosen(es, q) /= 0 => LET x == Handed(es, q) IN x.prefix \o x.text = Texts[k]

Decs == UNION {{"raw " \o Texts[k]} : k \in DOMAIN Texts}
Cases == PrintT("CASE " \o ToJson([cfg |-> [entries |-> es],
                  decs |-> [k \in 1 .. 2 * Len(Texts) |-> IF k % 2 = 1 THEN "raw " \o Texts[(k + 1) \div 2] ELSE "again"]]))
=============================================================================
