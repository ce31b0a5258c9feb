------------------------------- MODULE LatticeMC -------------------------------
(* A model that reads its lattice inputs several times while the input files  *)
(* appear, change and vanish.                                                 *)
EXTENDS Lattice, TLC, Json, IOUtils
CONSTANTS MaxReads, Repss, Bases
VARIABLES s, conf, file, have, out, script
vars == <<s, conf, file, have, out, script>>
RepsQuick == {<<1, 1, 1>>, <<2, 1, 1>>}
RepsFull == {<<1, 1, 1>>, <<1, 2, 1>>, <<1, 1, 3>>}
Seqs(S, n) == [1..n -> S]
Settings == [reps : Repss, nb : Bases, elements : {<<"V", "CO">>, <<"CO", "O", "V">>}, empty : {"V", "O"}, sites : {<<"P">>, <<"P", "Q">>}, given : {[x \in {} |-> ""]}]
Confs == {<<>>, <<<<>>>>, <<<<<<"CO", "V">>>>>>} \cup {<<<<q>>>> : q \in Seqs({"CO", "V"}, 2)}
Files == {<<>>, <<<<>>>>} \cup {<<<<q>>>> : q \in Seqs({"P", "Q"}, Size(s)) \cup Seqs({"P"}, Size(s) + 1) \cup {<<"P">>, <<>>}}
None == <<>>
Init == s \in Settings /\ conf = <<>> /\ file = <<>> /\ have = None /\ out = "" /\ script = <<>>
Read == /\ Len(script) < MaxReads /\ UNCHANGED s
        /\ \E c \in Confs, f \in Files :
             /\ conf' = c /\ file' = f /\ script' = Append(script, [conf |-> c, sites |-> f])
             /\ IF Refuses(s, c, f) THEN out' = "SetupError" /\ UNCHANGED have
                ELSE out' = "" /\ have' = <<Types(s, c), SiteTypes(s, f)>>
Next == Read
Spec == Init /\ [][Next]_vars
\* Everything accepted covers the lattice and uses declared sites only.
Fits == have # None => Len(have[2]) = Size(s) /\ ToSet(have[2]) \subseteq ToSet(s.sites)
Default == (script # <<>> /\ out = "" /\ ~Given(conf)) => have[1] = [i \in 1..Size(s) |-> s.empty]
\* A refused input changes nothing.
Atomic == [][out' = "SetupError" => have' = have]_vars
View == <<s, conf, file, have, out, Len(script)>>
Emit == IF "OUT" \in DOMAIN IOEnv /\ Len(script) = MaxReads THEN PrintT("SCN " \o ToJson([s |-> s, script |-> script])) ELSE TRUE
=============================================================================
