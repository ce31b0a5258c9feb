#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as code so that the statements stay easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))
S = "scaks/"
prop("C01", "Only conservative reaction networks become models",
 "A kinetic model can be constructed from a list of elementary reactions exactly when every reaction conserves the number of every element and the number of every kind of surface site between its initial state, its transition state (if given) and its final state. A network with any non-conserving state is rejected with ValueError, whatever its position in the list and whatever the other reactions are; gas and liquid phases occupy no site.",
 ["inputs", "configurations"], "all lists of well-formed elementary reactions (2 or 3 states, any stoichiometry, several species and site types per state, repeated species, transition states)",
 "The tests check a handful of fixed balanced/unbalanced formulas; the guarantee quantifies over every network and every place an imbalance can hide (transition state only, later reaction, multi-digit counts, site type only).",
 [S+"parsers/rxn_parser.py", S+"parsers/parser_base.py", S+"models/kinetic_model.py"],
 [("RxnEquation.check_conservation / ChemState.conserve", S+"parsers/rxn_parser.py"), ("parse_elementary_rxns gate", S+"parsers/parser_base.py")],
 ["MicroKineticModel(setup_dict=...)", "RxnEquation(...).check_conservation()"])
prop("C02", "Species inventory and stoichiometry matrices of a network",
 "For every accepted network the model lists each gas, liquid, adsorbate, transition state and empty site that occurs exactly once, in the right category and in sorted order. The stoichiometry matrices have one row per reaction and one column per site/adsorbate and per gas/liquid in that order, and each entry is the number of that species in the initial state minus the number in the final state; transition states contribute nothing.",
 ["inputs", "configurations"], "all accepted networks",
 "Tests pin one CO-oxidation network; repeated species in a state, species on both sides, several site kinds, liquids and name prefixes are never exercised.",
 [S+"parsers/parser_base.py", S+"models/kinetic_model.py"],
 [("parse_elementary_rxns", S+"parsers/parser_base.py"), ("get_stoichiometry_matrices", S+"parsers/parser_base.py")],
 ["model.gas_names, liquid_names, adsorbate_names, site_names, transition_state_names", "parser.get_stoichiometry_matrices()"])
prop("C03", "Reaction text is decomposed faithfully",
 "Every well-formed reaction expression is read into its 2 or 3 states, each state into its formulas in order, and each formula into stoichiometry, species, site number, site name, species type (gas, liquid, site, adsorbate) and element and site counts scaled by stoichiometry, independent of blanks around '+' and arrows. Reverting an expression exchanges initial and final state, keeps the transition state, and reverting twice gives an equivalent reaction; the adsorption and desorption gases are the gas formulas of the initial and the final state.",
 ["inputs"], "all well-formed reaction expressions",
 "The tests use a dozen fixed strings; the grammar is unbounded (multi-digit coefficients, site numbers, repeated elements, spacing, both arrow forms).",
 [S+"parsers/rxn_parser.py"],
 [("RxnEquation.tolist/revert", S+"parsers/rxn_parser.py"), ("ChemState / ChemFormula", S+"parsers/rxn_parser.py")],
 ["RxnEquation, ChemState, ChemFormula query functions"])
prop("C04", "Relative energies derived from absolute ones are consistent",
 "From absolute species energies, each reaction's reaction energy is the stoichiometric sum of the final state minus that of the initial state, the forward and reverse barriers are measured from the initial and the final state to the same transition state, and without an explicit transition state the transition state energy is that of the higher of the two states. Hence forward minus reverse barrier always equals the reaction energy, and reactions around any cycle of states sum to zero. A file that lacks the energy of a species of the network is refused and leaves the energies and flags of the model as they were.",
 ["inputs", "configurations"], "all accepted networks, all (complete or incomplete) assignments of energies to their species and sites, and all sequences of loads",
 "One energy file with one network is tested; sign, coefficient and maximum rules must hold for every network and energy landscape.",
 [S+"parsers/parser_base.py", S+"parsers/absolute_energy_parser.py"],
 [("_get_state_energy / _get_single_relative_energies", S+"parsers/parser_base.py"), ("AbsoluteEnergyParser.parse_data", S+"parsers/absolute_energy_parser.py")],
 ["model.relative_energies after parser.parse_data()"])
prop("C05", "Relative energy input is normalised and validated",
 "Relative energy data is accepted only if the numbers of barriers and of reaction energies both equal the number of reactions, and otherwise rejected with ValueError without changing the model. For accepted data the reaction energies are kept, a barrierless (Ga = 0) endothermic reaction gets its reaction energy as forward barrier while every other forward barrier is kept, and the reverse barrier is the forward barrier minus the reaction energy.",
 ["inputs", "histories"], "all barrier/reaction-energy lists and all sequences of (valid or invalid) parse calls",
 "Tests parse one file; the barrierless rule has sign cases and the atomicity of a rejected parse is never observed.",
 [S+"parsers/relative_energy_parser.py"],
 [("__get_relative_energies, __chk_data_validity", S+"parsers/relative_energy_parser.py")],
 ["model.relative_energies, model.has_relative_energy"])
prop("C06", "Thermodynamic corrections preserve energy consistency",
 "Correcting relative energies shifts each state of a reaction by the sum over its formulas of stoichiometry times the correction of that species, where only gases with data have a non-zero correction. With a transition state both barriers and the reaction energy move by the differences of these shifts; without one the barriers are rebuilt from the shifted states so that the lower-barrier direction has barrier zero. After any number of corrections forward minus reverse barrier still equals the reaction energy.",
 ["inputs", "configurations", "histories"], "all networks, energies, temperatures, pressures, both methods and repeated application",
 "The tests correct one network once; coefficients other than one, gases in several states, and repeated correction are not covered.",
 [S+"correctors/thermodynamic_corrector.py", S+"solvers/mean_field_solver.py"],
 [("correct_relative_energies", S+"correctors/thermodynamic_corrector.py"), ("shomate_correction / entropy_correction", S+"correctors/thermodynamic_corrector.py")],
 ["corrector.correct_relative_energies(...)", "corrector.shomate_correction / entropy_correction"])
prop("C07", "Transition-state rate constants obey detailed balance",
 "Every TST rate constant is (kB*T/h)*exp(-Ga/(kB*T)) of the corresponding forward or reverse barrier in reaction order, so the ratio of forward to reverse constant is exp(-dG/(kB*T)) at every temperature. When pressure is included, the forward rate is multiplied by each initial-state gas pressure to the power of its coefficient and the reverse rate likewise by the final-state gases, and by nothing else.",
 ["inputs", "configurations"], "all networks, barriers, temperatures and pressures, both solvers",
 "Tests compare a few hard-coded floats for one network and temperature.",
 [S+"solvers/solver_base.py", S+"solvers/mean_field_solver.py"],
 [("get_kTST, get_rxn_rates_TST", S+"solvers/solver_base.py"), ("get_rate_constants", S+"solvers/mean_field_solver.py")],
 ["solver.get_rate_constants()", "solver.get_rxn_rates_TST()"])
prop("C08", "Collision-theory rates and their reverse rates",
 "For a reaction with a gas in its initial state the forward rate follows collision theory of that gas (sticking exp(-Ga/kBT), area, active ratio, mass, pressure only if included) and the reverse rate is TST with the equivalent forward barrier minus the entropy-corrected reaction energy, never below zero barrier. With a gas only in the final state the reverse barrier is lowered by the coefficient times the gas's entropy correction and the forward rate is plain TST; with no gas both are plain TST. A unit cell area that is not positive is refused, and so is an active ratio above one where a collision rate is needed.",
 ["inputs", "configurations"], "all reactions, barriers, temperatures, pressures, areas and ratios",
 "The tests cover three reactions at one temperature.",
 [S+"solvers/solver_base.py"],
 [("get_rxn_rates_CT, get_kCT, get_TST_barrier_from_CT", S+"solvers/solver_base.py")],
 ["solver.get_rxn_rates_CT()", "solver.get_kCT()"])
prop("C09", "Elementary rates follow mass action",
 "For every network, coverages, pressures and concentrations, the forward (reverse) rate of a reaction is its rate constant times the product over its initial (final) state of coverage, free-site coverage, gas pressure or liquid concentration, each to the power of its total coefficient in that state. The free-site coverage of each site kind is its total minus the sum of the coverages of the adsorbates on that kind; net rates are forward minus reverse and reversibilities reverse over forward, reaction by reaction.",
 ["inputs", "configurations"], "all networks, coverages, rate constants, pressures, concentrations",
 "Tests evaluate one network at one point; wrong powers, wrong site kind or a wrong species lookup in other networks are invisible.",
 [S+"solvers/mean_field_solver.py"],
 [("get_elementary_rate_expression, get_rates, get_net_rates, get_reversibilities", S+"solvers/mean_field_solver.py")],
 ["solver.get_rates()", "solver.get_net_rates()", "solver.get_reversibilities()"])
prop("C10", "Coverage time derivatives are the net production of the network",
 "For every network and state, the time derivative of each adsorbate's coverage equals the sum over all reactions of the net rate times (number in the final state minus number in the initial state), and is zero for a species that is only a catalyst or occurs only in transition states. Consequently the derivative of the free-site coverage of every site kind equals its own net production, so the total number of sites is conserved along every trajectory.",
 ["inputs", "configurations", "histories"], "all networks with one site per adsorbate, all coverages and rate constants",
 "Only one network is tested, in which no adsorbate appears on both sides, twice, or with a coefficient above two.",
 [S+"solvers/mean_field_solver.py", S+"solvers/steady_state_solver.py"],
 [("get_adsorbate_dtheta_dt_expression, steady_state_function", S+"solvers/mean_field_solver.py, "+S+"solvers/steady_state_solver.py")],
 ["solver.steady_state_function()"])
prop("C11", "The analytical Jacobian is the derivative of the residual",
 "For every network, coverages and energies, each entry of the analytical Jacobian is exactly the partial derivative of the corresponding coverage time derivative with respect to the corresponding coverage, free-site terms included, in the same row and column order as the adsorbates. Finite differences of the residual, taken from either side by the helper for numerical Jacobians, agree with it.",
 ["inputs", "configurations"], "all networks with one site per adsorbate, all coverages and rate constants",
 "Tests compare one 2x2 matrix at one point.",
 [S+"solvers/steady_state_solver.py", S+"functions.py"],
 [("analytical_jacobian, poly_adsorbate_derivation, rate_derivation", S+"solvers/steady_state_solver.py")],
 ["solver.analytical_jacobian()"])
prop("C12", "Symbolic and numerical kinetics agree",
 "For every network, the symbolic elementary rates, rate constants, net rates, coverage derivatives and their Jacobian, evaluated at given coverages, energies, pressures and concentrations, equal the values the numerical solver computes at the same point.",
 ["inputs", "configurations"], "all networks and evaluation points",
 "Tests evaluate the symbolic path for one network only and never against the numerical one.",
 [S+"solvers/mean_field_solver.py"],
 [("get_data_symbols ... get_*_sym, *_by_sym", S+"solvers/mean_field_solver.py, "+S+"solvers/steady_state_solver.py")],
 ["solver.get_rates_by_sym(), get_net_rates_by_sym(), steady_state_function_by_sym(), analytical_jacobian_by_sym()"])
prop("C13", "Coverages stay physical",
 "Every guess a solve starts from, the user's or one from the hybrid method, is constrained first: each coverage is clipped to the range from zero to the smaller of one and its site's total, then adsorbates of a site kind that together exceed its total are scaled down to it in proportion; a guess that already obeys this is unchanged. Boltzmann coverages come in the order of the adsorbates with Boltzmann ratios of the absolute energies, and sum to one together with the empty sites' shares if these are included, by themselves otherwise.",
 ["inputs", "configurations"], "all coverage vectors, site totals and site assignments",
 "Tests constrain two vectors of one model.",
 [S+"solvers/steady_state_solver.py", S+"solvers/mean_field_solver.py"],
 [("constrain_coverages, boltzmann_coverages, classify_adsorbates", S+"solvers/steady_state_solver.py, "+S+"solvers/mean_field_solver.py")],
 ["solver.constrain_coverages()", "solver.boltzmann_coverages()", "solver.classify_adsorbates()"])
prop("C14", "A returned steady state is converged, physical and recorded",
 "Whatever sequence of iterates, errors, stagnations and failures the root finder produces, the solver returns coverages only if every coverage and every free-site coverage is non-negative and the residual of exactly these coverages is within tolerance; it stores the same coverages and error and archives the same coverages and the guess from which this attempt started. Failed attempts are restarted from the hybrid method's coverages, and the number of Newton steps per attempt never exceeds the configured maximum.",
 ["histories", "schedules", "fault_sequences"], "all behaviours of the root-finding iterator and of the hybrid method",
 "Tests only see runs in which the root finder converges on the first try.",
 [S+"solvers/steady_state_solver.py", S+"solvers/rootfinding_iterators.py", S+"models/micro_kinetic_model.py"],
 [("get_steady_state_cvgs main loop", S+"solvers/steady_state_solver.py"), ("MDNewton / ConstrainedNewton iterators", S+"solvers/rootfinding_iterators.py")],
 ["solver.get_steady_state_cvgs()", "solver.coverages, solver.error", "data.pkl"])
prop("C15", "On-the-fly analyses are driven by a strict protocol",
 "Within one solve every registered on-the-fly analysis gets setup before any step, then one registerStep per Newton iteration at its interval with the coverages and error of that iteration, and finalize exactly once per setup, all with the same outer counter, also when an attempt fails and is restarted. Analyses are called in registration order with every hook they define, whether in their own class or in a class they derive from, and an analysis registered on one model is never called for another model. An analysis class whose interval is not a positive integer is refused where it is defined.",
 ["histories", "schedules", "fault_sequences"], "all solver behaviours, numbers of analyses, intervals and models",
 "No test registers an analysis.",
 [S+"solvers/steady_state_solver.py", S+"plugins/analysis.py", S+"models/micro_kinetic_model.py"],
 [("analysis hooks in get_steady_state_cvgs", S+"solvers/steady_state_solver.py"), ("analysis_register", S+"models/micro_kinetic_model.py")],
 ["calls received by the plugin object"])
prop("C16", "Models do not leak state into each other",
 "With any number of models alive in a process and any interleaving of operations on them, each model answers exactly as if it were alone: rate constants, rates, coverages, energies, registered analyses and attributes depend only on that model's own setup and history. In particular a value computed for one temperature, energy set or coverage is never returned for another, neither across models nor within a model after its energies change.",
 ["histories", "schedules", "configurations"], "all interleavings of construct / parse / correct / evaluate on several models",
 "Tests build models one at a time and never interleave two.",
 [S+"descriptors/descriptors.py", S+"solvers/mean_field_solver.py", S+"models/kinetic_model.py"],
 [("Memoized", S+"descriptors/descriptors.py"), ("attribute descriptor storage and defaults", S+"descriptors/descriptors.py")],
 ["solver.get_rate_constants(), solver.get_rates(), model attributes"])
prop("C17", "Model attributes are validated, write-once and isolated",
 "An attribute accepts only values of its declared type and candidate set, is unset (default) before its first assignment, and any assignment that violates this raises and leaves the attribute as it was; once it has been read or assigned, its value never changes. Query-only properties can never be assigned, and the solver and corrector of a model can be replaced only by objects of the right kind.",
 ["inputs", "histories"], "all sequences of reads and assignments of valid and invalid values",
 "Tests assign a few values; histories mixing rejected and accepted assignments, and defaults of several instances, are not covered.",
 [S+"descriptors/descriptors.py", S+"descriptors/component_descriptors.py", S+"models/kinetic_model.py"],
 [("AttrDescriptor family, Property, Component", S+"descriptors/descriptors.py, "+S+"descriptors/component_descriptors.py"), ("set_solver / set_corrector", S+"models/kinetic_model.py")],
 ["model attribute access"])
prop("C18", "Work is partitioned over MPI ranks without loss or overlap",
 "For every sequence and every number of processes, the parts given to the ranks are consecutive pieces whose concatenation in rank order is the sequence, their lengths are the sizes split for that length, and these differ by at most one and add up to it. Merging the parts gives the whole sequence to every rank, and functions limited to the master run on rank 0 only.",
 ["inputs", "configurations"], "all lengths and numbers of processes",
 "The suite runs on a single process only.",
 [S+"mpicommons.py"], [("split_seq, split_size, merge_seq, master_only", S+"mpicommons.py")],
 ["mpi.split_seq(), mpi.split_size(), mpi.merge_seq(), master_only"])
prop("C19", "KMC processes expand completely and stay aligned with reactions",
 "Each valid process definition expands, for every basis site and every coordinate set in order, into a forward process and a reverse process with exchanged elements and the forward and reverse rate of its own reaction; redistribution processes have no reverse. The process mapping lists one correctly directed reaction label per slow process, in process order; invalid definitions (missing keys, unknown reactions or elements, mismatched lengths, coinciding coordinates) are rejected.",
 ["inputs", "configurations"], "all process definitions and lists of them",
 "KMCLib is absent here and the tests use one process file.",
 [S+"solvers/kmc_solver.py", S+"utilities/check_utilities.py"],
 [("__get_single_process, processes, process_mapping", S+"solvers/kmc_solver.py"), ("check_process_dict", S+"utilities/check_utilities.py")],
 ["solver.processes, solver.process_mapping"])
prop("C20", "KMC coverages written are the coverages of the lattice",
 "At the start and at every recorded step the coverage of each possible type is the ratio-weighted share of lattice points holding that type, the empty type takes the remainder so they sum to one, and types not declared are not counted; the Python and the C++ implementation agree. The written data file, read back at the end, contains exactly the recorded times, steps and coverages in order whatever the buffer size and the number of records. Read back while the simulation runs it holds a beginning of these with less than one buffer missing. On several processes the file is the same as on one.",
 ["inputs", "histories"], "all lattice configurations, ratios, step histories and buffer sizes",
 "The plugin tests need KMCLib and check no values; the C++ backend is never compared.",
 [S+"solvers/kmc_plugins/coverages_analysis.py", S+"solvers/kmc_plugins/kmc_functions.py", S+"solvers/kmc_plugins/plugin_backends", "c++/src/kmc_functions.cpp"],
 [("collect_coverages", S+"solvers/kmc_plugins/kmc_functions.py"), ("CoveragesAnalysis", S+"solvers/kmc_plugins/coverages_analysis.py")],
 ["auto_coverages.py", "collect_coverages()"])
prop("C21", "KMC event statistics account for every event",
 "Over any sequence of picked processes, frequency analysis reports for each process and each directed reaction exactly how often it was picked, overall and from step tof_start on, and rates that are the steady counts divided by sites and by the time from the first to the last steady record. TOF analysis cuts the recorded events, from the start time on, into consecutive windows that each end at the first record more than tof_interval after the window began, each closed window reported with its start time and its counts divided by sites and window length. Event analysis writes, with each record after the first, the previous record's step, available sites, total rates and probabilities of all processes and the process picked since; none of this depends on buffer sizes or on the number of processes.",
 ["histories"], "all event histories, intervals, start steps and buffer sizes",
 "The plugin tests need KMCLib and check no values.",
 [S+"solvers/kmc_plugins/frequency_analysis.py", S+"solvers/kmc_plugins/tof_analysis.py", S+"solvers/kmc_plugins/event_analysis.py"],
 [("FrequencyAnalysis, TOFAnalysis, EventAnalysis", S+"solvers/kmc_plugins")],
 ["auto_frequency.py, auto_tofs.py, auto_events.txt"])
prop("C22", "Coordinate groups form consistent unions and translations",
 "Adding two coordinate groups keeps the first group's coordinates in order and appends exactly the coordinates of the second that coincide with none of the first; at a coincidence the first group's element is kept unless it is the wildcard V, which is replaced. Moving a group translates every coordinate by the vector and keeps the elements, neither operation alters its operands. Invalid coordinates or elements to be added, vectors that are not lists of three and lists of different lengths are rejected.",
 ["inputs", "histories"], "all coordinate groups and operation sequences",
 "Tests use a few fixed groups.",
 [S+"utilities/coordinate_utilities.py"], [("CoordsGroup.__add__, move, append, extend", S+"utilities/coordinate_utilities.py")],
 ["CoordsGroup.coordinates(), elements(), len()"])
prop("C23", "The total reaction is a balanced combination of the steps",
 "For every network with surface species that can be eliminated in exactly one way, the total reaction is balanced, contains only gases and liquids, each once, and is that combination of the elementary steps, in the direction in which the steps run forward in sum, scaled to the smallest whole coefficients. Species whose net coefficient is zero do not appear. If the surface species cannot be eliminated or nothing remains, a ValueError is raised.",
 ["inputs", "configurations"], "all networks with a one-dimensional space of steady pathways",
 "One network is tested.",
 [S+"parsers/parser_base.py"], [("get_total_rxn_equation", S+"parsers/parser_base.py")],
 ["parser.get_total_rxn_equation()"])
prop("C24", "KMC lattice inputs are validated and completed",
 "Without a configuration or site file every lattice point is the empty type or the first possible site type, one per repetition and basis site; with a file its types are used in order. A site list of wrong length or with unknown types, an empty type outside the possible elements, and invalid analysis intervals are rejected, and the control parameters handed to the engine are those configured, with the redistribution settings present exactly when redistribution is on.",
 ["inputs", "configurations"], "all lattice sizes, type lists and settings",
 "KMCLib is absent here and the tests use one setup.",
 [S+"parsers/kmc_parser.py", S+"solvers/kmc_solver.py", S+"utilities/check_utilities.py"],
 [("construct_sitesmap, parse_configuration", S+"parsers/kmc_parser.py"), ("get_control_parameters", S+"solvers/kmc_solver.py"), ("check_analysis_interval", S+"utilities/check_utilities.py")],
 ["arguments received by the KMC engine"])
prop("C25", "A run starts from the right guess and leaves consistent results",
 "A microkinetic run takes its initial coverages from the user if given, else from archived steady state coverages of matching size, else from the hybrid method or ODE integration, and refuses a user guess of wrong type or length. After it, coverages, turnover frequencies, reversibilities and error of the model all belong to the same solution and to the energies of the run; data archived by a model survives its later writes of other variables.",
 ["histories", "configurations"], "all sequences of runs with and without user guesses, archives and energies",
 "Tests run one model once in a clean directory.",
 [S+"models/micro_kinetic_model.py", S+"solvers/mean_field_solver.py", S+"solvers/steady_state_solver.py"],
 [("MicroKineticModel.run", S+"models/micro_kinetic_model.py"), ("archive_data", S+"solvers/mean_field_solver.py")],
 ["arguments reaching the solver, model.steady_state_coverages/TOFs/reversibilities/error, data.pkl"])
prop("C26", "Turnover frequencies and rate control are network derivatives",
 "The turnover frequency of each gas or liquid is the sum over reactions of the net rate times its coefficient in the final minus in the initial state, in the order of the gases and liquids. The degree of rate control of each reaction is the relative change of the chosen product's turnover frequency when both of that reaction's barriers are lowered by the same small energy and everything else is unchanged, and computing it leaves coverages, error, energies and archive as they were.",
 ["inputs", "histories"], "all networks, states, products and reactions",
 "Tests compare one network's numbers and never look at the state afterwards.",
 [S+"solvers/mean_field_solver.py", S+"solvers/steady_state_solver.py"],
 [("get_tof", S+"solvers/mean_field_solver.py"), ("get_single_XRC", S+"solvers/steady_state_solver.py")],
 ["solver.get_tof()", "solver.get_single_XRC()"])
prop("C27", "Molecular formulas expand to the right atoms and mass",
 "Every well-formed molecular formula, with element counts, nested groups and group multipliers, expands to its atoms in order with multiplicity, and its molecular mass is the sum of the masses of exactly these atoms; malformed formulas are rejected, unknown elements with ElementSearchingError.",
 ["inputs"], "all molecular formulas",
 "Tests evaluate one or two molecules.",
 [S+"functions.py", S+"parsers/parser_base.py"], [("string2symbols", S+"functions.py"), ("get_molecular_mass", S+"parsers/parser_base.py")],
 ["string2symbols()", "ParserBase.get_molecular_mass()"])
prop("C28", "ODE trajectories are recorded completely and in order",
 "ODE integration starts at the given initial coverages (by default the Boltzmann coverages, or zero coverages without absolute energies) at the start time, advances in steps of the given span until the end time is reached, and returns time and coverages of the last point; each point solves the coverage equations of the model for the energies given. When a trajectory file is requested, reading it back gives every n-th integration point (n the output interval) in order, each exactly once, also when the integration was interrupted. The hybrid method a model has from the start integrates its equations for ten seconds from the coverages its solver has, zero before any solution.",
 ["inputs", "histories", "crash points"], "all start/end times, spans, output intervals, initial coverages and interruptions",
 "Tests integrate once and compare the last point.",
 [S+"solvers/mean_field_solver.py", S+"solvers/steady_state_solver.py", S+"plugins/hybrid_methods.py"], [("solve_ode", S+"solvers/steady_state_solver.py"), ("ODE_integration", S+"plugins/hybrid_methods.py")],
 ["solver.solve_ode()", "auto_ode_coverages.py"])
prop("C29", "Gas corrections follow statistical thermodynamics",
 "The Shomate correction of a gas is its enthalpy minus temperature times entropy from the parameter set whose temperature range holds the temperature (below a range starting under 300 K the lowest parameters are extrapolated), and the entropy correction is -kB*T*ln(q) with q the product of the translational, rotational and vibrational partition functions at the given or, by default, the model's own mass, pressure and temperature. Species that are no gases and gases without data get exactly zero.",
 ["inputs"], "all species, temperatures, pressures and masses",
 "Tests evaluate two gases at one temperature.",
 [S+"correctors/thermodynamic_corrector.py", S+"database/thermo_data.py"],
 [("shomate_correction, entropy_correction", S+"correctors/thermodynamic_corrector.py"), ("shomate_params, rotation_temperatures", S+"database/thermo_data.py")],
 ["corrector.shomate_correction()", "corrector.entropy_correction()"])
prop("C30", "Processes of a parallel run keep to their own files",
 "In a run on several processes each process writes its own log, archive and ODE trajectory files and nobody else's, in whatever order the processes run and whether or not the directories exist already; no process fails because another one was slower or faster, and each file holds exactly what its process wrote, as with one process. The processes of a lattice simulation share one log that only the master writes. Processes other than the master show nothing below warnings on the console for any model.",
 ["schedules", "inputs"], "all numbers of processes, interleavings, existing directories and sequences of operations",
 "Tests run in one process only.",
 [S+"mpicommons.py", S+"models/kinetic_model.py", S+"models/micro_kinetic_model.py", S+"models/kmc_model.py", S+"solvers/steady_state_solver.py"],
 [("MPI communicator wrapper", S+"mpicommons.py"), ("_set_logger, set_logger_level", S+"models/kinetic_model.py"), ("__init__, archive", S+"models/micro_kinetic_model.py"), ("solve_ode", S+"solvers/steady_state_solver.py")],
 ["./log/out_<rank>.log", "./data/data_<rank>.pkl", "./data/auto_ode_coverages_<rank>.py", "console"])
prop("C31", "Root-finding iterations descend and report true errors",
 "For every function and Jacobian the damped Newton iteration moves from each point along the Newton direction by the longest of the steps 1, 1/2, 1/4, ... that makes the norm of the function smaller, so norms strictly decrease; it ends with the unchanged point when no step does. The constrained iteration moves to the point of least norm on the Newton line, taken as it is in the first five iterations and passed through the given constraint afterwards, and ends when the point no longer changes. Both yield with each point the norm of the function at this very point, start from the given point, report a singular Jacobian as ZeroDivisionError and require their parameters.",
 ["inputs", "histories"], "all functions, Jacobians, starting points and numbers of iterations",
 "Tests run each iterator on one smooth system near its root, where no step is ever halved and no constraint acts.",
 [S+"solvers/rootfinding_iterators.py"],
 [("MDNewton.__iter__", S+"solvers/rootfinding_iterators.py"), ("ConstrainedNewton.__iter__", S+"solvers/rootfinding_iterators.py")],
 ["MDNewton(f, x0, J=..., verbose=...)", "ConstrainedNewton(f, x0, ...)"])
prop("C32", "Input files are Python programs and written files read back",
 "A setup, energy, process or configuration file means what running it as a Python program means: functions, generators, loops, imports and later definitions in it see the variables of the file, and a file that fails as a program raises its error. A setup dictionary comes before a setup file; with neither the model raises ValueError, without a parser ParameterError; unknown names are ignored and every known one is set to exactly the value given, zero included. The generated absolute energy file lists every species and site once with zero energies, the relative one has one slot per reaction in order, and what is filled in is what is read. Lists and dictionaries written to data files and the scripts of engine objects read back as equal ones; the parts of a converted time add up to it.",
 ["inputs"], "all input programs, reaction networks, values and times",
 "Tests read a few fixed files that only assign literals.",
 [S+"functions.py", S+"models/kinetic_model.py", S+"parsers/absolute_energy_parser.py", S+"parsers/relative_energy_parser.py", S+"parsers/kmc_parser.py", S+"utilities/format_utilities.py", S+"solvers/kmc_solver.py"],
 [("load_variables", S+"functions.py"), ("__init__, _load, generate_*_energies_file", S+"models/kinetic_model.py"), ("get_list_string, get_dict_string, convert_time", S+"utilities/format_utilities.py"), ("script_decorator", S+"solvers/kmc_solver.py")],
 ["model attributes", "parser.parse_data()", "generate_absolute_energies_file()", "auto_*.py"])
prop("C33", "LaTeX texts and formula algebra mean the same chemistry",
 "The LaTeX text of a formula, state or reaction names for every term in order its coefficient, its atoms with their numbers, the bonds being formed or broken and its kind of site, so that it can be read back to the same chemistry, and that of a reversed reaction names the states in reverse order. The sum of two formulas is the state of both; two formulas conserve each other exactly if atoms and sites including the phase agree, else ValueError, and anything that is no formula or state is refused with ParameterError. Logged rate and coverage equations append to formulas.tex one well-formed line per expression, numbered in order, whose right side is the expression.",
 ["inputs", "histories"], "all formulas, states, reactions, networks and sequences of logging calls",
 "Tests render two states and compare three pairs of formulas; no equation is ever logged.",
 [S+"parsers/rxn_parser.py", S+"solvers/mean_field_solver.py", S+"solvers/steady_state_solver.py"],
 [("texen, conserve, __add__", S+"parsers/rxn_parser.py"), ("get_latex_strs, log_latex", S+"solvers/mean_field_solver.py"), ("get_dtheta_dt_syms", S+"solvers/steady_state_solver.py")],
 ["RxnEquation.texen()", "ChemFormula.conserve()", "formulas.tex"])
prop("C34", "Energy profiles show the energies of every reaction",
 "Plotting draws for every reaction exactly one picture, named after its position and text, with one line that starts at zero, ends at the reaction energy and passes a peak of the height of the forward barrier exactly if the barrier lies above both states; this succeeds for every energy input that was read, with or without transition states and barriers, always shows the energies read last, and obeys the given style. Without energies nothing is drawn.",
 ["inputs", "histories"], "all networks, energies and sequences of reading and plotting",
 "Tests construct the plotter and never plot.",
 [S+"plotters/energy_profile_plotter.py"],
 [("plot_all", S+"plotters/energy_profile_plotter.py")],
 ["plotter.plot_all()", "energy_profile/*.png"])
prop("C35", "The scripts run, continue, collect and draw campaigns faithfully",
 "Jobs made from a template mean what the template means except for the gas pressures, one job for every pressure in order, with all template files and nothing left of an earlier job, listed in job_dirs.txt. Continuing a run sets the start time in the setup to exactly the last time reached, whatever the lines were before, and changes nothing else, however often. Extraction reports for every job that has results, and for no other, the last coverages and the rates of the chosen processes at that job's pressure, in order of pressure (on a grid: at its pair of pressures). Every picture shows exactly the data it was given: net rates are forward minus reverse of the processes making the product, merged coverages are the sums by kind, bars go with their reactions. The run scripts remove old output only, read the last setup file by name, start the steady state solution from the last point of the trajectory and pass errors on.",
 ["inputs", "histories"], "all templates, trajectories, results and sequences of creating, running, continuing, extracting and drawing",
 "No test runs a script.",
 ["scripts/kmc_run/change_start_time.py", "scripts/kmc_run/1d-run/create_jobs.py", "scripts/kmc_run/2d-run/create_jobs.py", "scripts/kmc_run/run.py", "scripts/mkm_run/run.py", "scripts/kmc_plot/batch_plot/extract_cvgs.py", "scripts/kmc_plot/batch_plot/extract_tofs.py", "scripts/kmc_plot/map_plot/extract_tofs.py", "scripts/kmc_plot/plot_tof.py", "scripts/kmc_plot/plot_frequencies.py", "scripts/kmc_plot/plot_merged_coverages.py", "scripts/mkm_plot/plot_ode_coverages.py"],
 [("main program", "scripts/kmc_run/change_start_time.py"), ("dict2setup and main program", "scripts/kmc_run/2d-run/create_jobs.py"), ("main program", "scripts/kmc_plot/batch_plot/extract_cvgs.py"), ("main program", "scripts/kmc_plot/plot_tof.py")],
 ["files written by the scripts", "matplotlib figures"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
