--------------------------------- MODULE RunMC ---------------------------------
(* Sequences of runs of models in one directory, stage by stage as in the     *)
(* code.  Points and energies are symbols; good[p][e] tells whether p is      *)
(* converged for energies e.  A value computed by a stage is tagged with the  *)
(* point and the energies it was computed from.                               *)
EXTENDS Run, TLC, Json, IOUtils
CONSTANTS MaxRuns, MaxOps, EmitAt, Coarsers, Stale
Pts == 1..3
Ens == {"own", "b"}
N == 2                       \* number of adsorbates; a point archives as N equal entries
As(p) == [i \in 1..N |-> p]
VARIABLES file, arch, names, run, st, res, script, last
vars == <<file, arch, names, run, st, res, script, last>>
Good == [p \in Pts |-> {e \in Ens : p = 3 \/ (p = 2 /\ e = "b")}]
Target(e) == 3
NoRes == [cov |-> <<>>, rev |-> <<>>, tof |-> <<>>, err |-> <<>>]
Empty == [x \in {} |-> 0]
Idle == [ph |-> "idle", pt |-> 0, src |-> ""]
NameSets == {{}, {Cov}, {Cov, "tofs"}, {"rates", "initial_guess"}}
Init == /\ file = <<>> /\ arch = Empty /\ names \in NameSets /\ run = <<>> /\ st = Idle /\ res = NoRes
        /\ script = <<>> /\ last = <<>>
Runs == [init : {<<>>} \cup {<<p>> : p \in Pts}, bad : {FALSE}, en : Ens, fs : BOOLEAN, coarse : BOOLEAN, xrc : BOOLEAN]
        \cup [init : {<<1>>}, bad : {TRUE}, en : {"own"}, fs : {FALSE}, coarse : {TRUE}, xrc : {FALSE}]
\* Archiving merges into what this solver has archived and replaces the file.
Put(a, name, v) == IF name \in names THEN [x \in DOMAIN a \cup {name} |-> IF x = name THEN v ELSE a[x]] ELSE a
RECURSIVE PutAll(_, _)
PutAll(a, S) == IF S = {} THEN a ELSE LET q == CHOOSE y \in S : TRUE IN PutAll(Put(a, q[1], q[2]), S \ {q})
Archive(S) == /\ arch' = PutAll(arch, S)
              /\ file' = IF \E q \in S : q[1] \in names THEN <<arch'>> ELSE file
Note(op) == script' = Append(script, op)
Keep == UNCHANGED <<file, arch, names>>

Begin(r) == /\ st.ph = "idle" /\ Len(script) < MaxOps /\ Note([op |-> "run", r |-> r])
            /\ LET s == Source(r, file, N) IN
               IF s = "refused" THEN UNCHANGED <<run, st, res, file, arch, names>> /\ last' = <<"refused">>
               ELSE /\ run' = r /\ last' = <<>> /\ UNCHANGED <<res>> /\ Keep
                    /\ \E h \in (CASE s = "user" -> {r.init[1]} [] s = "archive" -> {file[1][Cov][1]} [] OTHER -> Pts) :
                                         st' = [ph |-> IF r.fs \/ Improves(r, s) THEN "coarse" ELSE "solve", pt |-> h, src |-> s]
Coarse == /\ st.ph = "coarse" /\ UNCHANGED <<run, script, last>> /\ Keep
          /\ \E q \in Coarsers : /\ st' = [st EXCEPT !.pt = q, !.ph = IF run.fs THEN "rates" ELSE "solve"]
                                 /\ res' = IF run.fs THEN [res EXCEPT !.cov = <<q, run.en>>, !.err = IF Stale THEN @ ELSE <<q, run.en>>] ELSE res
Solve == /\ st.ph = "solve" /\ UNCHANGED <<run, script, last, names>>
         /\ LET x == IF run.en \in Good[st.pt] THEN st.pt ELSE Target(run.en) IN
            /\ st' = [st EXCEPT !.pt = x, !.ph = "rates"]
            /\ res' = [res EXCEPT !.cov = <<x, run.en>>, !.err = <<x, run.en>>]
            /\ Archive({<<Cov, As(x)>>, <<"steady_state_error", x>>, <<"initial_guess", As(st.pt)>>})
Rates == /\ st.ph = "rates" /\ st' = [st EXCEPT !.ph = "tof"] /\ UNCHANGED <<run, script, last, res, names>>
         /\ Archive({<<"rates", <<st.pt, run.en>>>>})
Tof == /\ st.ph = "tof" /\ st' = [st EXCEPT !.ph = "rev"] /\ UNCHANGED <<run, script, last, names>>
       /\ res' = [res EXCEPT !.tof = <<st.pt, run.en>>]
       /\ Archive({<<"rates", <<st.pt, run.en>>>>, <<"net_rates", <<st.pt, run.en>>>>, <<"tofs", <<st.pt, run.en>>>>})
Rev == /\ st.ph = "rev" /\ st' = IF run.xrc THEN [st EXCEPT !.ph = "xrc"] ELSE Idle
       /\ UNCHANGED <<run, script, names>> /\ res' = [res EXCEPT !.rev = <<st.pt, run.en>>]
       /\ last' = IF run.xrc THEN last ELSE <<st.pt, run.en>>
       /\ Archive({<<"reversibilities", <<st.pt, run.en>>>>})
\* The rate control solves perturbed models, but nothing of them is kept.
Xrc == /\ st.ph = "xrc" /\ st' = Idle /\ last' = <<st.pt, run.en>> /\ UNCHANGED <<run, script, res>> /\ Keep
Restart == /\ st.ph = "idle" /\ Len(script) < MaxOps /\ script # <<>> /\ arch' = Empty /\ res' = NoRes /\ last' = <<>> /\ run' = <<>>
           /\ Note([op |-> "restart"]) /\ UNCHANGED <<file, names, st>>
Plant(k) == /\ st.ph = "idle" /\ Len(script) < MaxOps /\ Note([op |-> "plant", k |-> k]) /\ last' = <<>>
            /\ file' = CASE k = "none" -> <<>> [] k = "other" -> <<[x \in {"rates"} |-> <<0, "own">>]>>
                         [] k = "short" -> <<[x \in {Cov} |-> <<1>>]>> [] k = "good" -> <<[x \in {Cov} |-> As(2)]>>
            /\ UNCHANGED <<arch, names, run, st, res>>
PlantKinds == {"none", "other", "short", "good"}
Next == (\E r \in Runs : Begin(r)) \/ Coarse \/ Solve \/ Rates \/ Tof \/ Rev \/ Xrc \/ Restart
        \/ (\E k \in PlantKinds : Plant(k))
Spec == Init /\ [][Next]_vars
View == <<file, arch, names, run, st, res, last, Len(script)>>

\* After a run everything belongs to its solution and its energies.
Consistent == (st.ph = "idle" /\ Len(last) = 2) =>
                \A f \in DOMAIN res : res[f] = last
\* So does what it archived; nothing this solver archived is lost.
Current == (st.ph = "idle" /\ Len(last) = 2) => \A n \in DOMAIN arch \cap RateNames : arch[n] = last
SolveCurrent == (st.ph = "idle" /\ Len(last) = 2 /\ ~run.fs /\ Cov \in names) => arch[Cov] = As(last[1])
Survives == [][ (st.ph # "idle" \/ st'.ph # "idle") => (DOMAIN arch \subseteq DOMAIN arch') ]_vars
\* A precise solution converges for the energies of the run.
Converged == (st.ph = "idle" /\ Len(last) = 2 /\ ~run.fs) => run.en \in Good[last[1]]
\* Coverages of the archive are preferred to the hybrid method, the user's to both.
Preferred == (st.ph \in {"coarse", "solve"}) => /\ (run.init # <<>> => st.src = "user")
                                                 /\ (run.init = <<>> /\ file # <<>> /\ Cov \in DOMAIN file[1] /\ Len(file[1][Cov]) = N => st.src = "archive")
                                                 /\ (st.src = "hybrid" => file = <<>>)
Emit == IF "OUT" \in DOMAIN IOEnv /\ st.ph = "idle" /\ Len(script) >= EmitAt
        THEN PrintT("SCN " \o ToJson([script |-> script, names |-> names])) ELSE TRUE
=============================================================================
