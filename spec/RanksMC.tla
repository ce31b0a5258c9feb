------------------------------- MODULE RanksMC -------------------------------
(* All interleavings of P ranks that make models and archive.  Late = TRUE:   *)
(* ranks meet after the master has made a directory; FALSE: before, as the    *)
(* code did, so that a fast rank opens a file in a directory not yet there.   *)
EXTENDS Ranks, TLC, Json, IOUtils
CONSTANTS Procs, Late, Programs
VARIABLES P, prog, pre, dirs, files, todo, waiting, failed, script
vars == <<P, prog, pre, dirs, files, todo, waiting, failed, script>>
View == <<P, prog, pre, dirs, files, todo, waiting, failed>>

Make(r, d) == IF r = 0 THEN << <<"check", d>> >> ELSE <<>>
Meet == << <<"meet", "">> >>
OpenLog(p, r, k) == << <<"open", LogFile(p, r, k), IF k = "kmc" THEN "." ELSE "log">> >>
Steps(p, r, o) ==
  CASE o[1] = "new" -> (IF p = 1 \/ o[2] = "kmc" THEN <<>> ELSE IF Late THEN Make(r, "log") \o Meet ELSE Meet \o Make(r, "log")) \o OpenLog(p, r, o[2])
                       \o (IF p = 1 \/ o[2] = "kmc" THEN <<>> ELSE IF Late THEN Make(r, "data") \o Meet ELSE << <<"unless", "data">> >>)
    [] o[1] = "archive" -> << <<"open", DataFile(p, r), "data">> >>
    [] o[1] = "meet" -> IF p = 1 THEN <<>> ELSE Meet
    [] OTHER -> <<>>
Compile(p, r, ops) == FlattenSeq([i \in DOMAIN ops |-> Steps(p, r, ops[i])])
ProgDef == { << <<"new", "micro">>, <<"archive", "a">> >>,
             << <<"new", "kmc">>, <<"log", "x">> >>,
             << <<"new", "micro">>, <<"new", "micro">>, <<"archive", "a">> >> }
ProgFew == { << <<"new", "micro">>, <<"archive", "a">> >>, << <<"new", "kmc">>, <<"log", "x">> >> }

Ranks == 0..(P - 1)
Init == /\ P \in Procs /\ prog \in Programs /\ pre \in SUBSET {"log", "data"}
        /\ dirs = pre /\ files = [r \in Ranks |-> {}]
        /\ todo = [r \in Ranks |-> Compile(P, r, prog)] /\ waiting = {} /\ failed = {} /\ script = <<>>
Done(r) == todo[r] = <<>> \/ r \in failed
Step(r) == /\ ~Done(r) /\ r \notin waiting /\ script' = Append(script, r)
           /\ LET s == Head(todo[r]) rest == [todo EXCEPT ![r] = Tail(@)] IN
              CASE s[1] = "check" -> /\ todo' = [todo EXCEPT ![r] = IF s[2] \in dirs THEN Tail(@) ELSE << <<"mkdir", s[2]>> >> \o Tail(@)]
                                     /\ UNCHANGED <<dirs, files, waiting, failed>>
                [] s[1] = "mkdir" -> dirs' = dirs \cup {s[2]} /\ todo' = rest /\ UNCHANGED <<files, waiting, failed>>
                [] s[1] = "unless" -> /\ todo' = [todo EXCEPT ![r] = (IF s[2] \in dirs THEN <<>> ELSE Meet \o (IF r = 0 THEN << <<"mkdir", s[2]>> >> ELSE <<>>)) \o Tail(@)]
                                      /\ UNCHANGED <<dirs, files, waiting, failed>>
                [] s[1] = "open" -> IF P > 1 /\ s[3] # "." /\ s[3] \notin dirs THEN failed' = failed \cup {r} /\ UNCHANGED <<dirs, files, todo, waiting>>
                                    ELSE files' = [files EXCEPT ![r] = @ \cup {s[2]}] /\ todo' = rest /\ UNCHANGED <<dirs, waiting, failed>>
                [] s[1] = "meet" -> IF waiting \cup {r} = Ranks
                                    THEN waiting' = {} /\ todo' = [q \in Ranks |-> Tail(todo[q])] /\ UNCHANGED <<dirs, files, failed>>
                                    ELSE waiting' = waiting \cup {r} /\ UNCHANGED <<dirs, files, todo, failed>>
           /\ UNCHANGED <<P, prog, pre>>
End == (\A r \in Ranks : Done(r)) /\ UNCHANGED vars
Next == (\E r \in Ranks : Step(r)) \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* Deadlocks are checked by TLC: all ranks must come to an end.
NoneFails == failed = {}
OwnFiles == Kind(prog) = "micro" => \A r, q \in Ranks : r # q => files[r] \cap files[q] = {}
Finished == \A r \in Ranks : todo[r] = <<>>
AllThere == Finished => \A r \in Ranks : LogFile(P, r, Kind(prog)) \in files[r] /\ (Archived(prog) # <<>> => DataFile(P, r) \in files[r])
Ends == <>Finished
NoStray == P = 1 => dirs = pre
Emit == IF "OUT" \in DOMAIN IOEnv /\ Finished THEN PrintT("SCN " \o ToJson([P |-> P, prog |-> prog, pre |-> pre, script |-> script])) ELSE TRUE
=============================================================================
