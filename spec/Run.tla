---------------------------------- MODULE Run ----------------------------------
(* One run of a microkinetic model: where the initial guess comes from, which *)
(* stages see it, and what is left behind.  A run is                          *)
(*  [init |-> <<>> or <<point>>, bad |-> BOOLEAN (user guess of wrong type or *)
(*   length), en |-> energies, fs, coarse, xrc |-> BOOLEAN]; the directory    *)
(* holds a data file, <<>> or <<data>>, data a function from archived names.  *)
EXTENDS Integers, Sequences, FiniteSets

Cov == "steady_state_coverages"
\* Source of the initial guess; n is the number of adsorbates.
Source(r, file, n) == IF r.bad THEN "refused"
                      ELSE IF r.init # <<>> THEN "user"
                      ELSE IF file = <<>> THEN "hybrid"
                      ELSE IF Cov \in DOMAIN file[1] /\ Len(file[1][Cov]) = n THEN "archive" ELSE "ode"
\* Whether the guess is improved by the coarse solver before the precise one.
Improves(r, src) == ~r.fs /\ r.coarse /\ src # "archive"
\* What a finished run writes (if archived).
SolveNames == {Cov, "steady_state_error", "initial_guess"}
RateNames == {"rates", "net_rates", "tofs", "reversibilities"}
Written(r) == IF r.fs THEN RateNames ELSE SolveNames \cup RateNames
=============================================================================
