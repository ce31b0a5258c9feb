"""Rate constants in logarithmic form (C07, C08) and gas corrections (C29)."""
import math
import fakekmc
fakekmc.install()
import gen, drv, ener, kin

KB = 8.6173324e-5
AMU = 1.66053904e-27
BIG = 2 ** 29
CT_POOL = ["CO_g + *_s -> CO_s", "O2_g + 2*_s -> 2O_s", "2H2_g + 4*_s -> 4H_s", "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s",
           "3H_s + N_s <-> NH2-H_4s -> NH3_g + 4*_s", "2NO_g + 2*_s -> 2NO_s", "CH4_g + 2*_s <-> CH3-H_2s -> CH3_s + H_s",
           "CO_g + O_s -> CO2_g + *_s", "CO_l + *_s -> CO_s", "HCl_g + 2*_s -> H_s + Cl_s", "2O_s -> O2_g + 2*_s", "OC_g + *_s -> OC_s",
           "CO_s -> CO_g + *_s", "*_s + H2O_g -> H2O_s", "CO_s + *_t -> CO_t + *_s", "2*_s + N2_g -> 2N_s", "4H_s -> 2H2_g + 4*_s",
           "2O_s + 2CO_s -> 2CO2_g + 4*_s", "C2H4_g + *_s -> C2H4_s", "CO_s + O_s -> 2*_s + CO2_g", "3O2_g + 6*_s -> 6O_s"]


def ln4(x):
    """Natural logarithm in units of 10^-4."""
    try:
        import mpmath as mp
        if x == 0:
            return -BIG
        v = mp.log(x) if isinstance(x, mp.mpf) else math.log(x)
        v = int(round(float(v) * 1e4))
        return v if abs(v) < BIG else BIG
    except Exception:
        return BIG


def lnlist(xs):
    try:
        return [ln4(x) for x in xs]
    except Exception:
        return [BIG]


def pressure(rng):
    return rng.choice([[1, 1], [1, 2], [1, 100], [30, 1], [7, 10], [3, 1], [1, 1000]])


def energies(rng, n):
    gf = [rng.choice([0, rng.randint(0, 4000), rng.randint(-300, 6000)]) for _ in range(n)]
    dg = [rng.choice([0, rng.randint(-4000, 4000), rng.randint(-300, 300)]) for _ in range(n)]
    return [dict(gf=f, gr=f - d) for f, d in zip(gf, dg)]


def scenario(rng, algo):
    if algo == "CT" or rng.random() < 0.4:
        rx = rng.sample(CT_POOL, rng.randint(1, 4))
    else:
        rx = ener.network(rng)
    sp = ener.species(rx)
    s = dict(rxns=rx, T=rng.choice([200, 273, 298, 300, 350, 400, 450, 500, 600, 650, 900, 1000, 1500]), algo=algo,
             p=[[x, pressure(rng)] for x in sp if x.endswith("_g")], area=[rng.choice([9, 25, 100, 1]), rng.choice([-20, -19, -21, -20, -19, -21, -20, -12, -9])],
             act=rng.choice([[1, 1], [4, 9], [1, 4], [1, 2]]), hist=[])
    if algo == "CT" and rng.random() < 0.08:
        s["area"] = rng.choice([[0, 0], [-9, -20]])
    if algo == "CT" and rng.random() < 0.06:
        s["act"] = [3, 2]
    pool = [energies(rng, len(rx)) for _ in range(2)]
    for _ in range(rng.randint(1, 4)):
        e = rng.choice(pool)
        k = rng.random()
        if k < 0.35:
            s["hist"].append(dict(op="all", e=e, solver=rng.choice(["ss", "ss", "mf"])))
        elif k < 0.5 and all(x["gf"] != 0 or x["gf"] - x["gr"] <= 0 for x in e):
            s["hist"].append(dict(op="loaded", e=e))
        else:
            s["hist"].append(dict(op="one", i=rng.randrange(len(rx)), e=e, incl=rng.random() < 0.6,
                                  solver=rng.choice(["ss", "ss", "mf", "kmc"]), kind=rng.choice([algo, algo, algo, "TST", "CT"]) if algo == "CT" else "TST"))
    return s


def evs(e, T):
    u = KB * T / 100.0
    return dict(Gaf=[x["gf"] * u for x in e], Gar=[x["gr"] * u for x in e], dG=[(x["gf"] - x["gr"]) * u for x in e])


def build(s):
    rx = s["rxns"]
    sp = ener.species(rx)
    defs = {x: dict(pressure=q[0] / float(q[1])) for x, q in s["p"]}
    for x in sp:
        if x.endswith("_l"):
            defs[x] = dict(concentration=1.0)
        elif x.startswith("*_"):
            defs[x] = dict(site_name=x, type="site", total=1.0)
    kw = dict(temperature=float(s["T"]), corrector="ThermodynamicCorrector", unitcell_area=s["area"][0] * 10.0 ** s["area"][1],
              active_ratio=s["act"][0] / float(s["act"][1]), rate_algo=s["algo"])
    return rx, defs, kw


def run(s):
    from scaks.models.micro_kinetic_model import MicroKineticModel
    from scaks.models.kmc_model import KMCModel
    from scaks.solvers.mean_field_solver import MeanFieldSolver
    if "gas" in s:
        for e in run_gas(s):
            yield e
        return
    rx, defs, kw = build(s)
    m, exc = drv.call(drv.make_model, rx, defs, solver="SteadyStateSolver", **kw)
    yield dict(ev="new", rxns=rx, T=s["T"], p=s["p"], area=s["area"], act=s["act"], algo=s["algo"], exc=exc)
    if exc:
        return
    km = None
    mf = None
    T = float(s["T"])
    for o in s["hist"]:
        es = evs(o["e"], T)
        solver = m.solver
        if o.get("solver") == "mf":
            if mf is None:
                mf = MeanFieldSolver(m)
            solver = mf
        elif o.get("solver") == "kmc":
            if km is None:
                d = dict(kw, rxn_expressions=rx, species_definitions=defs, parser="RelativeEnergyParser", solver="KMCSolver")
                try:
                    km = KMCModel(setup_dict=d, logger_level=50, file_handler_level=50, console_handler_level=50)
                finally:
                    drv.quiet_handlers()
            solver = km.solver
        if o["op"] in ("all", "loaded"):
            if o["op"] == "loaded":
                m.parser.parse_data(energy_data=dict(Ga=es["Gaf"], dG=es["dG"]))
                r, exc = drv.call(solver.get_rate_constants)
            else:
                r, exc = drv.call(solver.get_rate_constants, relative_energies=es)
            lf, lr = (lnlist(r[0]), lnlist(r[1])) if r else ([], [])
            yield dict(ev="all", e=o["e"], exc=exc, lf=lf, lr=lr)
        else:
            f = solver.get_rxn_rates_CT if o["kind"] == "CT" else solver.get_rxn_rates_TST
            a = dict(include_pressure=True) if o["incl"] else {}
            r, exc = drv.call(f, rx[o["i"]], es, **a)
            yield dict(ev="one", i=o["i"] + 1, e=o["e"][o["i"]], incl=o["incl"], kind=o["kind"], exc=exc,
                       lf=ln4(r[0]) if r else 0, lr=ln4(r[1]) if r else 0)


def run_gas(s):
    """Corrections of single species on one model."""
    gases = sorted({o["g"] for o in s["gas"]})
    defs = {g: dict(pressure=s["p"][0] / float(s["p"][1])) for g in gases if g.endswith("_g")}
    m = drv.make_model(["CO_g + *_s -> CO_s"], dict({"CO_g": dict(pressure=1.0)}, **defs), temperature=float(s["T"]),
                       corrector="ThermodynamicCorrector")
    for o in s["gas"]:
        T = o["T"] or s["T"]
        if o["m"] == "shomate":
            r, exc = drv.call(m.corrector.shomate_correction, o["g"], *([float(o["T"])] if o["T"] else []))
            out = int(round(float(r) * 1e5)) if not exc else 0
            yield dict(ev="shomate", g=o["g"], T=T, exc=exc, out=out if abs(out) < BIG else BIG)
        else:
            a = {}
            if o["T"]:
                a["T"] = float(o["T"])
            if o["w"]:
                a["m"] = o["w"] * 1e-4 * AMU
            if o["p"]:
                a["p"] = o["p"][0] / float(o["p"][1])
            r, exc = drv.call(m.corrector.entropy_correction, o["g"], **a)
            out = int(round(float(r) / (KB * T) * 1e4)) if not exc else 0
            yield dict(ev="entropy", g=o["g"], T=T, w=o["w"] or 0, p=o["p"] or [], q=s["p"], exc=exc, out=out if abs(out) < BIG else BIG)
