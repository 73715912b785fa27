-------------------------------- MODULE Commands --------------------------------
(***************************************************************************)
(* The argument lists that commands and the yt-dlp and ffmpeg helpers end  *)
(* up with, as a function of the calls that built them (C25).              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Plain(p) == [t |-> "plain", name |-> p, args |-> <<>>, fmt |-> <<>>, audio |-> FALSE]
Ffmpeg(f) == [t |-> "ffmpeg", name |-> "ffmpeg", args |-> <<>>, fmt |-> <<f>>, audio |-> FALSE]
YtDlp(u) == [t |-> "ytdlp", name |-> "yt-dlp", args |-> <<u>>, fmt |-> <<>>, audio |-> FALSE]

Inserted(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
ToNat(s) == CHOOSE n \in 0 .. 99 : s = <<"0","1","2","3","4","5","6","7","8","9","10","11","12","13","14","15","16","17","18","19",
  "20","21","22","23","24","25","26","27","28","29","30">>[n + 1]

Call(cmds, c, a) ==
  LET k == Len(cmds)
      x == cmds[k]
      Set(y) == [cmds EXCEPT ![k] = y]
  IN CASE c = "plain" -> Append(cmds, Plain(a[1]))
       [] c = "ffmpeg" -> Append(cmds, Ffmpeg(a[1]))
       [] c = "ytdlp" -> Append(cmds, YtDlp(a[1]))
       [] c = "arg" -> Set([x EXCEPT !.args = Append(@, a[1])])
       [] c = "args" -> Set([x EXCEPT !.args = @ \o a])
       [] c = "insert" -> Set([x EXCEPT !.args = Inserted(@, ToNat(a[1]), a[2])])
       [] c = "path" -> Set([x EXCEPT !.name = a[1]])
       [] c = "audio" -> Set([x EXCEPT !.audio = (a[1] = "yes")])
       [] c = "format" -> Set([x EXCEPT !.fmt = <<a[1]>>])
       [] OTHER -> cmds

\* `args` consists of the given groups, in any order
RECURSIVE Made(_, _)
Made(args, groups) ==
  IF groups = {} THEN args = <<>>
  ELSE \E g \in groups : /\ Len(g[2]) <= Len(args)
                         /\ SubSeq(args, 1, Len(g[2])) = g[2]
                         /\ Made(SubSeq(args, Len(g[2]) + 1, Len(args)), groups \ {g})

Right(x, args) ==
  CASE x.t = "plain" -> args = x.args
    [] x.t = "ffmpeg" ->
       LET own == Len(args) - Len(x.args) - 1 IN
       /\ own >= 0
       /\ SubSeq(args, own + 1, Len(args)) = x.args \o <<"-">>
       /\ Made(SubSeq(args, 1, own), {<<1, <<"-i", "pipe:">>>>, <<2, <<"-map", "a">>>>, <<3, <<"-f", x.fmt[1]>>>>,
                                      <<4, <<"-loglevel", "error">>>>})
    [] x.t = "ytdlp" ->
       Made(args, {<<1, x.args>>, <<2, <<"--quiet">>>>, <<3, <<"--no-part">>>>, <<4, <<"--no-continue">>>>, <<5, <<"-o", "-">>>>}
                  \cup (IF x.audio THEN {<<6, <<"-x">>>>} ELSE {})
                  \cup (IF x.fmt = <<>> THEN {} ELSE {<<7, <<"-f", x.fmt[1]>>>>}))

Initial(c) == [cmds |-> <<>>]
Upd(m, e) == IF e.e = "call" THEN [cmds |-> Call(m.cmds, e.c, e.a)] ELSE m

If(c, v) == IF c THEN {v} ELSE {}
Viols(m, e) ==
  IF e.e /= "argv" THEN {}
  ELSE If(~e.ok, <<"C25", "the commands could not be run">>)
       \cup If(e.ok /\ Len(e.all) /= Len(m.cmds), <<"C25", "a different number of programs runs">>)
       \cup If(e.ok /\ Len(e.all) = Len(m.cmds) /\ \E k \in DOMAIN e.all : e.all[k].name /= m.cmds[k].name,
               <<"C25", "another program runs">>)
       \cup If(e.ok /\ Len(e.all) = Len(m.cmds) /\ \E k \in DOMAIN e.all : ~Right(m.cmds[k], e.all[k].args),
               <<"C25", "a program gets wrong arguments">>)
=============================================================================
