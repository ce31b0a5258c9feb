-------------------------------- MODULE Lattice --------------------------------
(* What a kinetic Monte Carlo engine is given: lattice, configuration, sites  *)
(* and control parameters.  A setting has reps (3 numbers), nb (number of     *)
(* basis sites), elements, empty, sites (possible site types) and given, a    *)
(* function from the attributes set to the text of their values.  An input    *)
(* file is <<>> (none), <<<<>>>> (without the variable) or <<<<types>>>>.     *)
EXTENDS Util

Size(s) == s.reps[1] * s.reps[2] * s.reps[3] * s.nb
Given(file) == file # <<>> /\ file[1] # <<>>
EmptyOk(s) == s.empty \in ToSet(s.elements)
Types(s, conf) == IF Given(conf) THEN conf[1][1] ELSE [i \in 1..Size(s) |-> s.empty]
SitesOk(s, file) == Given(file) => Len(file[1][1]) = Size(s) /\ ToSet(file[1][1]) \subseteq ToSet(s.sites)
SiteTypes(s, file) == IF Given(file) THEN file[1][1] ELSE [i \in 1..Size(s) |-> s.sites[1]]
Refuses(s, conf, file) == ~EmptyOk(s) \/ ~SitesOk(s, file)

\* Settings of the engine, the attribute each comes from and its default.
Always == { <<"time_limit", "time_limit", "inf">>, <<"number_of_steps", "nstep", "1">>, <<"dump_interval", "trajectory_dump_interval", "1">>,
            <<"seed", "random_seed", "None">>, <<"rng_type", "random_generator", "'MT'">>, <<"analysis_interval", "analysis_interval", "None">>,
            <<"start_time", "start_time", "0.0">>, <<"extra_traj", "extra_trajectories", "None">>, <<"do_redistribution", "do_redistribution", "False">> }
WithRedistribution == { <<"redistribution_interval", "redistribution_interval", "1">>, <<"fast_species", "fast_species", "None">>,
                        <<"nsplits", "nsplits", "[1, 1, 1]">>, <<"distributor_type", "distributor_type", "'RandomDistributor'">>, <<"empty_element", "empty_type", "'V'">> }
Value(s, q) == IF q[2] \in DOMAIN s.given THEN s.given[q[2]] ELSE q[3]
Redistributes(s) == "do_redistribution" \in DOMAIN s.given /\ s.given["do_redistribution"] = "True"
Params(s) == Always \cup (IF Redistributes(s) THEN WithRedistribution ELSE {})
Control(s) == [k \in {q[1] : q \in Params(s)} |-> Value(s, CHOOSE q \in Params(s) : q[1] = k)]
=============================================================================
