"""C12: symbolic and numerical kinetics agree."""
import kin, drv, gen


def net_of(net, ss, r):
    return gen.coef(net[r][-1], ss) - gen.coef(net[r][0], ss)


def unit_steps(net):
    """The symbolic derivatives weigh every reaction with one (known finding
    kf-coefficient): every adsorbate occurs at most once in each reaction."""
    ads = gen.species_of(net)[2]
    for r in net:
        for a in ads:
            n = [sum(f[0] for f in st if gen.sstext(f) == a) for st in r]
            if sum(n) > 1:
                return False
    return True


def scenarios(rng, tier, spec):
    for s in plain(rng, tier, spec):
        s["again"] = rng.random() < 0.4
        # another point: half of every coverage if that is a multiple of 1/D, or nothing
        s["theta2"] = [[a, v // 2 if rng.random() < 0.7 else 0] for a, v in s["theta"]]
        yield s


def plain(rng, tier, spec):
    for s in spec:
        s = dict(s, algo="sym")
        s["deriv"] = unit_steps([kin.abstract(t) for t in s["rxns"]])
        if rng.random() < (0.12 if tier == "quick" else 1):
            yield s
    q = tier == "quick"
    for st in kin.networks(rng, 90 if q else 900, [], size=3):
        st["algo"], st["deriv"] = "sym", unit_steps([kin.abstract(t) for t in st["rxns"]])
        yield st
    for st in kin.networks(rng, 90 if q else 900, [], size=4, maxcoef=2, filter=unit_steps):
        st["algo"], st["deriv"] = "sym", True
        yield st
    base = dict(algo="sym", deriv=True, tot=[["*_s", 4]], p=[["O2_g", 2]], c=[], kf=[2], kr=[3], D=4, ord=2)
    yield dict(base, id="kf-coefficient", rxns=["O2_g + 2*_s -> 2O_s"], theta=[["O_s", 1]])
    yield dict(base, id="kf-spectator", rxns=["CO_g + *_s + O_s -> CO_s + O_s"], theta=[["CO_s", 1], ["O_s", 1]],
               p=[["CO_g", 2]])


def run(s):
    m = kin.model(s["rxns"], s)
    m.solver.get_data_symbols()
    # the same model at other coverages and with other energies
    for i in range(3 if s.get("again") else 1):
        q = dict(s)
        if i:
            q["theta"] = s["theta2"]
        if i == 2:
            q.update(kf=s["kr"], kr=s["kf"])
        for ev in one(m, q):
            yield ev


def one(m, s):
    e, x = kin.energies(m, s), kin.cvgs(m, s)
    m.parser.parse_data(energy_data=dict(Ga=e["Gaf"], dG=e["dG"]))
    sc = s["D"] ** s["ord"]
    sol = m.solver
    ev = dict(ev="sym", deriv=s["deriv"], rxns=s["rxns"], exc="")

    def both(name, num, sym, conv):
        a, ea = drv.call(num)
        b, eb = drv.call(sym)
        ev[name] = [conv(a) if not ea else [kin.BIG], conv(b) if not eb else [kin.BIG + 1]]
    flat = lambda q: [v for row in q for v in row]
    ex = lambda q: kin.exacts(list(q), sc)
    both("k", lambda: sol.get_rate_constants(), lambda: sol.get_rate_constants_by_sym(), lambda q: kin.exacts(flat(q), 1))
    both("r", lambda: sol.get_rates(x), lambda: sol.get_rates_by_sym(x), lambda q: ex(flat(q)))
    both("n", lambda: sol.get_net_rates(x), lambda: sol.get_net_rates_by_sym(x), ex)
    both("t", lambda: sol.get_tof(x), lambda: sol.get_tof_by_sym(x), ex)
    both("d", lambda: sol.steady_state_function(x), lambda: sol.steady_state_function_by_sym(x), ex)
    both("j", lambda: flat(sol.analytical_jacobian(x).tolist()),
         lambda: flat(sol.analytical_jacobian_by_sym(x).tolist()), ex)
    if not s["deriv"]:
        ev["d"] = ev["j"] = [[0], [0]]
    ks, exc = drv.call(sol.get_equilibrium_constant_syms)
    sub = sol.get_subs_dict()
    ev["K"] = [] if exc else [[kin.exact(a, 1), kin.exact(k.evalf(subs=sub) * b, 1)] for k, a, b in zip(ks, s["kf"], s["kr"])]
    yield ev
