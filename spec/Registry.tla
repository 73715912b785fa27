-------------------------------- MODULE Registry --------------------------------
(***************************************************************************)
(* Which handler a registry runs for an input, and with what (C18, C19).   *)
(*                                                                         *)
(* An entry has a priority and rules, its identity is the order in which   *)
(* it was registered. The reference picks, among the entries one of whose  *)
(* rules matches the input, the one with the lowest (priority, order).     *)
(* Parsing of URLs comes with the events (from the URL library).           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Contains(s, p) == \E k \in 0 .. (Len(s) - Len(p)) : SubSeq(s, k + 1, k + Len(p)) = p

Matches(kind, v, s) ==
  CASE kind = "any" -> TRUE
    [] kind \in {"eq", "full"} -> s = v
    [] kind = "start" -> StartsWith(s, v)
    [] kind = "has" -> Contains(s, v)
    [] kind = "http" -> s \in {"http", "https"}

\* What the URL library says about a text
Parse(q, t) == CHOOSE p \in {q.parses[k] : k \in DOMAIN q.parses} : p.text = t

RuleMatches(r, q) ==
  LET p == Parse(q, q.raw) IN
  CASE r.t = "prefix" -> IF q.parsed THEN q.hasp /\ q.prefix = r.v ELSE StartsWith(q.raw, r.v)
    [] r.t = "string" -> ~p.url /\ Matches(r.m, r.v, q.raw)
    [] r.t = "url" -> p.url /\ Matches(r.m, r.v, p.scheme)
                      /\ (r.dm = "any" \/ (p.hasdom /\ Matches(r.dm, r.dv, p.dom)))

EntryMatches(en, q) == \E k \in DOMAIN en.rules : RuleMatches(en.rules[k], q)
Candidates(es, q) == {i \in DOMAIN es : EntryMatches(es[i], q)}
Before(es, i, j) == es[i].prio < es[j].prio \/ (es[i].prio = es[j].prio /\ i < j)

\* The entry to run, 0 for none
Chosen(es, q) == LET c == Candidates(es, q) IN
                 IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c \ {i} : Before(es, i, j)

\* The first of its prefix rules that matches, 0 for none
PrefixRule(en, q) ==
  LET ks == {k \in DOMAIN en.rules : en.rules[k].t = "prefix" /\ RuleMatches(en.rules[k], q)} IN
  IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : k <= j

Rest(s, p) == SubSeq(s, Len(p) + 1, Len(s))

\* The input for the handler
Handed(es, q) ==
  LET en == es[Chosen(es, q)]
      k == PrefixRule(en, q)
      strip == ~q.parsed /\ k /= 0
      t == IF strip THEN Rest(q.raw, en.rules[k].v) ELSE q.raw
      p == Parse(q, t)
  IN [hasp |-> IF q.parsed THEN q.hasp ELSE strip,
      prefix |-> IF q.parsed THEN q.prefix ELSE IF strip THEN en.rules[k].v ELSE "",
      url |-> p.url, text |-> p.norm]

Initial(c) == [es |-> c.entries, q |-> [e |-> "none"], runs |-> <<>>]

Upd(m, e) ==
  CASE e.e = "q" -> [m EXCEPT !.q = e, !.runs = <<>>]
    [] e.e = "h" -> [m EXCEPT !.runs = Append(m.runs, e.id)]
    [] OTHER -> m

If(c, v) == IF c THEN {v} ELSE {}

Viols(m, e) ==
  CASE e.e = "h" ->
       LET c == Chosen(m.es, m.q)
           x == Handed(m.es, m.q)
       IN If(c = 0, <<"C18", "a handler runs although no rule matches">>)
          \cup If(m.runs /= <<>>, <<"C18", "more than one handler runs">>)
          \cup If(c /= 0 /\ e.id /= c, <<"C18", "the handler of another entry runs">>)
          \cup If(c = e.id /\ (e.hasp /= x.hasp \/ e.prefix /= x.prefix), <<"C19", "wrong prefix">>)
          \cup If(c = e.id /\ (e.url /= x.url \/ e.text /= x.text), <<"C19", "wrong source">>)
          \cup If(e.raw /= e.prefix \o e.text, <<"C19", "the raw text isn't the prefix followed by the source">>)
          \cup If(~e.acc, <<"C19", "the accessors of the source disagree">>)
    [] e.e = "r" ->
       LET c == Chosen(m.es, m.q) IN
       If(e.panic, <<"C18", "a lookup panics">>)
       \cup If(~e.panic /\ e.some /= (c /= 0), <<"C18", "finds something exactly when nothing matches">>)
       \cup If(~e.panic /\ e.some /\ m.runs /= <<e.id>>, <<"C18", "returns something else than the handler that ran">>)
       \cup If(~e.panic /\ ~e.some /\ m.runs /= <<>>, <<"C18", "drops the result of a handler">>)
    [] OTHER -> {}
=============================================================================
