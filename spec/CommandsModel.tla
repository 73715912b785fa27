------------------------------ MODULE CommandsModel ------------------------------
(***************************************************************************)
(* A design of the command helpers: argument lists are edited in place,    *)
(* ffmpeg's by inserting before its last argument. TLC makes every         *)
(* sequence of calls within the bounds and compares with Commands. Every   *)
(* sequence becomes a test with stand-in programs.                         *)
(***************************************************************************)
EXTENDS Commands, TLC, Json

CONSTANTS MaxCalls, MaxCmds, Bug

VARIABLES m, argv, calls
vars == <<m, argv, calls>>

Starts == {<<"plain", <<"tool">>>>, <<"ffmpeg", <<"mp3">>>>, <<"ytdlp", <<"u r">>>>}
Edits(t) == CASE t = "plain" -> {<<"arg", <<"a">>>>, <<"args", <<>>>>, <<"args", <<"b", "-">>>>, <<"insert", <<"0", "c">>>>}
              [] t = "ffmpeg" -> {<<"arg", <<"a">>>>, <<"args", <<"b", "-">>>>, <<"args", <<>>>>, <<"path", <<"tool">>>>}
              [] t = "ytdlp" -> {<<"audio", <<"yes">>>>, <<"audio", <<"no">>>>, <<"format", <<"f1">>>>, <<"format", <<"-x">>>>,
                                 <<"path", <<"tool">>>>}

FfArgs(f) == <<"-i", "pipe:", "-map", "a", "-f", f, "-loglevel", "error", "-">>
Last == argv[Len(argv)]
Put(x) == [argv EXCEPT ![Len(argv)] = x]
InsertAt(t) == IF t = "ffmpeg" THEN Len(Last) - 1 ELSE Len(Last)
RECURSIVE AddAll(_, _, _)
AddAll(s, t, as) == IF as = <<>> THEN s
                    ELSE AddAll(Inserted(s, IF t = "ffmpeg" /\ Bug /= "append" THEN Len(s) - 1 ELSE Len(s), as[1]), t, Tail(as))

Init == m = Initial(0) /\ argv = <<>> /\ calls = <<>>
Step(c) ==
  /\ m' = Upd(m, [e |-> "call", c |-> c[1], a |-> c[2]])
  /\ calls' = Append(calls, ToJson(<<c[1]>> \o c[2]))
  /\ LET t == m'.cmds[Len(m'.cmds)].t IN
     argv' = CASE c[1] = "plain" -> Append(argv, <<>>)
               [] c[1] = "ffmpeg" -> Append(argv, FfArgs(c[2][1]))
               [] c[1] = "ytdlp" -> Append(argv, <<c[2][1]>>)
               [] c[1] \in {"arg", "args"} -> Put(AddAll(Last, t, c[2]))
               [] c[1] = "insert" -> Put(Inserted(Last, ToNat(c[2][1]), c[2][2]))
               [] OTHER -> argv
Next == /\ Len(calls) < MaxCalls
        /\ \/ Len(m.cmds) < MaxCmds /\ \E c \in Starts : Step(c)
           \/ m.cmds /= <<>> /\ \E c \in Edits(m.cmds[Len(m.cmds)].t) : Step(c)
Spec == Init /\ [][Next]_vars

\* yt-dlp's list is made when the command is
Final(k) == IF m.cmds[k].t = "ytdlp"
            THEN argv[k] \o <<"--quiet", "--no-part", "--no-continue", "-o", "-">>
                 \o (IF m.cmds[k].audio THEN <<"-x">> ELSE <<>>)
                 \o (IF m.cmds[k].fmt = <<>> THEN <<>> ELSE <<"-f", m.cmds[k].fmt[1]>>)
            ELSE argv[k]
Correct == \A k \in DOMAIN m.cmds : Right(m.cmds[k], Final(k))
Cases == m.cmds /= <<>> => PrintT("CASE " \o ToJson([cfg |-> [k |-> 0], decs |-> Append(calls, ToJson(<<"run">>))]))
=============================================================================
