"""What each check runs: specification modules to model check, trace module."""
NETWORK = dict(module="NetworkMC", quick="NetworkMC_quick.cfg", thorough="NetworkMC.cfg", gen=True)
KINETICS = dict(module="KineticsMC", quick="KineticsMC_quick.cfg", thorough="KineticsMC.cfg", gen=True)
ENERGETICS = dict(module="EnergeticsMC", quick="EnergeticsMC_quick.cfg", thorough="EnergeticsMC.cfg", gen=True)
RATES = dict(module="RatesMC", quick="RatesMC_quick.cfg", thorough="RatesMC.cfg", gen=True)
GASMC = dict(module="GasMC", quick="GasMC_quick.cfg", thorough="GasMC.cfg", gen=True)
COVERAGES = dict(module="CoveragesMC", quick="CoveragesMC_quick.cfg", thorough="CoveragesMC.cfg", gen=True)
SOLVE = dict(module="SolveMC", quick="SolveMC_quick.cfg", thorough="SolveMC.cfg", gen=True)
SOLVESIM = dict(module="SolveMC", quick="SolveMC_sim.cfg", thorough="SolveMC_sim.cfg", gen=True, simulate=((700, 60), (8000, 80)), workers=1)
TOTAL = dict(module="TotalMC", quick="TotalMC_quick.cfg", thorough="TotalMC.cfg", gen=True)
FORMULA = dict(module="FormulaMC", quick="FormulaMC_quick.cfg", thorough="FormulaMC.cfg", gen=True)
PARTITION = dict(module="PartitionMC", quick="PartitionMC_quick.cfg", thorough="PartitionMC.cfg", gen=True)
COORDS = dict(module="CoordsMC", quick="CoordsMC_quick.cfg", thorough="CoordsMC.cfg", gen=True)
COORDSSIM = dict(module="CoordsMC", quick="CoordsMC_sim.cfg", thorough="CoordsMC_sim.cfg", gen=True, simulate=((100, 13), (2000, 13)), workers=1)
ATTR = dict(module="AttrMC", quick="AttrMC_quick.cfg", thorough="AttrMC.cfg", gen=True)
SESSION = dict(module="SessionMC", quick="SessionMC_quick.cfg", thorough="SessionMC.cfg", gen=True)
SESSIONSIM = dict(module="SessionMC", quick="SessionMC_sim.cfg", thorough="SessionMC_sim.cfg", gen=True, simulate=((60, 24), (600, 24)), workers=1)
SESSIONPAIRS = dict(module="SessionMC", quick="SessionMC_pairs.cfg", thorough="SessionMC_pairs5.cfg", gen=True)
RUN = dict(module="RunMC", quick="RunMC_quick.cfg", thorough="RunMC.cfg", gen=True)
RUNSIM = dict(module="RunMC", quick="RunMC_sim.cfg", thorough="RunMC_sim.cfg", gen=True, simulate=((60, 60), (1500, 60)), workers=1)
ODE = dict(module="OdeMC", quick="OdeMC_quick.cfg", thorough="OdeMC.cfg", gen=True)
PROCESS = dict(module="ProcessMC", quick="ProcessMC_quick.cfg", thorough="ProcessMC.cfg", gen=True)
LATTICE = dict(module="LatticeMC", quick="LatticeMC_quick.cfg", thorough="LatticeMC.cfg", gen=True)
INTERVAL = dict(module="IntervalMC", quick="IntervalMC_quick.cfg", thorough="IntervalMC.cfg", gen=True)
KMC = dict(module="KmcMC", quick="KmcMC_quick.cfg", thorough="KmcMC.cfg", gen=True)
RANKS = dict(module="RanksMC", quick="RanksMC_quick.cfg", thorough="RanksMC.cfg", gen=True)
RANKSSIM = dict(module="RanksMC", quick="RanksMC_sim.cfg", thorough="RanksMC_sim.cfg", gen=True, simulate=((120, 60), (1500, 60)), workers=1)
NEWTON = dict(module="NewtonMC", quick="NewtonMC_quick.cfg", thorough="NewtonMC.cfg", gen=True)
NEWTONTWO = dict(module="NewtonMC", quick="NewtonMC_two.cfg", thorough="NewtonMC_two.cfg", gen=True)
PROGRAM = dict(module="ProgramMC", quick="ProgramMC_quick.cfg", thorough="ProgramMC.cfg", gen=True)
LATEX = dict(module="LatexMC", quick="LatexMC_quick.cfg", thorough="LatexMC.cfg", gen=True)
CAMPAIGN = dict(module="CampaignMC", quick="CampaignMC_quick.cfg", thorough="CampaignMC.cfg", gen=True)
PROFILE = dict(module="ProfileMC", quick="ProfileMC_quick.cfg", thorough="ProfileMC.cfg", gen=True)
PROPS = {
    "C01": dict(mc=[NETWORK], trace="TraceChem"),
    "C02": dict(mc=[NETWORK], trace="TraceChem"),
    "C03": dict(mc=[NETWORK], trace="TraceChem"),
    "C04": dict(mc=[ENERGETICS], trace="TraceEnergetics"),
    "C05": dict(mc=[ENERGETICS], trace="TraceEnergetics"),
    "C06": dict(mc=[ENERGETICS], trace="TraceEnergetics"),
    "C07": dict(mc=[RATES], trace="TraceRates"),
    "C08": dict(mc=[RATES], trace="TraceRates"),
    "C29": dict(mc=[GASMC], trace="TraceRates"),
    "C13": dict(mc=[COVERAGES], trace="TraceCoverages"),
    "C09": dict(mc=[KINETICS], trace="TraceKinetics"),
    "C10": dict(mc=[KINETICS], trace="TraceKinetics"),
    "C11": dict(mc=[KINETICS], trace="TraceKinetics"),
    "C12": dict(mc=[KINETICS], trace="TraceKinetics"),
    "C14": dict(mc=[SOLVE, SOLVESIM], trace="TraceSolve"),
    "C15": dict(mc=[SOLVE, SOLVESIM], trace="TraceSolve"),
    "C16": dict(mc=[SESSION, SESSIONPAIRS, SESSIONSIM], trace="TraceSession"),
    "C17": dict(mc=[ATTR, INTERVAL], trace="TraceAttr"),
    "C18": dict(mc=[PARTITION], trace="TracePartition"),
    "C22": dict(mc=[COORDS, COORDSSIM], trace="TraceCoords"),
    "C23": dict(mc=[TOTAL], trace="TraceTotal"),
    "C27": dict(mc=[FORMULA], trace="TraceFormula"),
    "C25": dict(mc=[RUN, RUNSIM], trace="TraceRun"),
    "C19": dict(mc=[PROCESS], trace="TraceProcess"),
    "C20": dict(mc=[KMC], trace="TraceKmc"),
    "C21": dict(mc=[KMC], trace="TraceKmc"),
    "C24": dict(mc=[LATTICE, INTERVAL], trace="TraceLattice"),
    "C28": dict(mc=[ODE], trace="TraceOde"),
    "C26": dict(mc=[KINETICS], trace="TraceKinetics"),
    "C31": dict(mc=[NEWTON, NEWTONTWO], trace="TraceNewton"),
    "C32": dict(mc=[PROGRAM], trace="TraceProgram"),
    "C33": dict(mc=[LATEX], trace="TraceLatex"),
    "C34": dict(mc=[PROFILE], trace="TraceProfile"),
    "C35": dict(mc=[CAMPAIGN], trace="TraceCampaign"),
    "C30": dict(mc=[RANKS, RANKSSIM], trace="TraceRanks"),
}
