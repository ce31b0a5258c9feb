"""C26: turnover frequencies and degrees of rate control."""
import copy, glob, os
import kin, drv, gen

# Mechanisms with the net rates they have at a steady state.
CHAINS = [
    (["CO_g + *_s -> CO_s", "CO_s -> CO_l + *_s"], [1, 1]),
    (["CO_g + *_s -> CO_s", "CO_s <-> C-O_s -> OC_s", "OC_s -> OC_g + *_s"], [1, 1, 1]),
    (["CO_g + *_s -> CO_s", "CO_s + *_t -> CO_t + *_s", "CO_t -> CO_l + *_t"], [1, 1, 1]),
    (["O2_g + 2*_s -> 2O_s", "CO_g + *_s -> CO_s", "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s"], [1, 2, 2]),
    (["CO2_g + 2*_s -> CO_s + O_s", "CO_g + *_s -> CO_s", "2O_s -> O2_g + 2*_s"], [2, -2, 1]),
    (["H2_g + 2*_s -> 2H_s", "H_s + *_s -> *_s + H_s", "2H_s -> H2_l + 2*_s"], [1, 0, 1]),
    (["H2_g + 2*_s -> H_s + H_s", "N_s + 3H_s -> NH3_g + 4*_s", "N2_g + 2*_s -> 2N_s"], [3, 2, 1]),
    (["CO_g + O_s -> CO2_g + *_s", "2O_s -> O2_g + 2*_s"], [2, -1]),
]


def activities(net, s):
    """Rates of both directions per unit rate constant, times D^ord."""
    th, tot, p, c, D = dict(s["theta"]), dict(s["tot"]), dict(s["p"]), dict(s["c"]), s["D"]
    free = {k: v - sum(th[a] for a in th if "*_" + kin.site_of(a) == k) for k, v in tot.items()}
    if min(free.values()) <= 0 or min(th.values()) <= 0:
        return None
    out = []
    for r in net:
        v = []
        for st in (r[0], r[-1]):
            x, so = 1, 0
            for f in st:
                ss = gen.sstext(f)
                a = p[ss] if f[3] == "g" else c[ss] if f[3] == "l" else free[ss] if f[1] == "*" else th[ss]
                x *= a ** f[0]
                so += f[0] if f[3] not in ("g", "l") else 0
            v.append(x * D ** (s["ord"] - so))
        out.append(v)
    return out


def steady(rng, net, s, v):
    """Chooses rate constants with which the given state is steady."""
    act = activities(net, s)
    if not act or any(min(a) == 0 for a in act):
        return None
    R = rng.randint(1, 30) * rng.choice([-1, 1])
    kf, kr = [], []
    for (f, b), w in zip(act, v):
        ok = [k for k in range(1, 13) if (k * f - R * w) % b == 0 and 0 < (k * f - R * w) // b <= 12]
        if not ok:
            return None
        k = rng.choice(ok)
        kf.append(k)
        kr.append((k * f - R * w) // b)
    s.update(kf=kf, kr=kr)
    # The determinants of the specification must stay within its integers.
    D, o = s["D"], s["ord"]
    big = max(k * max(a) * D * 4 for k, a in zip(map(max, kf, kr), act))
    n = len(s["theta"])
    return R if 8 * abs(R) * 3 * big ** n < 2 ** 31 else None


def scenarios(rng, tier, spec):
    q = tier == "quick"
    for st in kin.networks(rng, 350 if q else 4000, spec, bident=True, shift=True):
        st["algo"] = "tof"
        yield st
    for ch, v in CHAINS:
        net = [kin.abstract(x) for x in ch]
        found = 0
        for _ in range(60000 if q else 600000):
            s = kin.state(rng, net, ds=(2, 3, 4, 5, 6), pmax=5, sub=False, bounded=False)
            if not s or not steady(rng, net, s, v):
                continue
            g = rng.choice([g for g, _ in s["p"]])
            found += 1
            yield dict(s, algo="xrc", rxns=ch, gas=g, zero=rng.random() < 0.3, wide=rng.random() < 0.15)
            if found >= (14 if q else 80):
                break


def files():
    return {f: open(f, "rb").read() for f in glob.glob("*.pkl")}


def run(s):
    for f in files():
        os.remove(f)
    names = ["steady_state_coverages", "steady_state_error", "initial_guess", "rates", "net_rates", "tofs", "reversibilities"]
    arch = [x for i, x in enumerate(names) if i == 0 and s["kr"][0] % 2 or (s["kf"][0] + s["kr"][0] + i) % 3 == 0]
    m = kin.model(s["rxns"], s, decimal_precision=60, tolerance=1e-30, archived_variables=arch)
    e, x = kin.energies(m, s), kin.cvgs(m, s)
    sc = s["D"] ** s["ord"]
    sol = m.solver
    if s["algo"] == "tof":
        res, exc = drv.call(sol.get_tof, x, e)
        single = [[g, kin.exact(kin.unshift([sol.get_tof(x, e, gas_name=g)], s)[0], sc)] for g in m.gas_names] if not exc else []
        yield dict(s, ev="tof", exc=exc, tof=kin.exacts(kin.unshift(res or [], s), sc), single=single)
        return
    if s.get("zero"):      # all barriers lower by the lowest of them, which becomes zero
        z = min(e["Gaf"] + e["Gar"])
        e = dict(Gaf=[g - z for g in e["Gaf"]], Gar=[g - z for g in e["Gar"]], dG=e["dG"])
    m.parser.parse_data(energy_data=dict(Ga=e["Gaf"], dG=e["dG"]))
    own = s["kf"][0] % 2 == 0  # sometimes with the energies of the model itself
    arg = None if own else e
    steady_, exc = drv.call(sol.get_steady_state_cvgs, c0=x, relative_energies=arg)
    tofs, e1 = drv.call(sol.get_tof, x, arg)
    list(m.solver.get_tof(x, arg))
    if s["D"] % 3 == 0:     # a file of an earlier model, or none at all
        with open("data.pkl", "wb") as f:
            f.write(b"kept as it is")
    elif s["D"] % 2 and os.path.exists("data.pkl"):
        os.remove("data.pkl")
    before = [list(sol.coverages), sol.error, copy.deepcopy(e), copy.deepcopy(m.relative_energies), files()]
    xs, e2 = drv.call(sol.get_single_XRC, s["gas"], epsilon=1e-9, relative_energies=arg)
    if s.get("wide"):      # a large step gives no derivative, but leaves everything as it was
        m.hybrid_method = None
        drv.call(sol.get_single_XRC, s["gas"], epsilon=0.25, relative_energies=arg)
    fl = files()
    other = []
    if s["ord"] and s["kf"][0] % 3 == 0:     # a solution found in another way
        m2 = kin.model(s["rxns"], s, decimal_precision=60, archived_variables=arch)
        m2.parser.parse_data(energy_data=dict(Ga=e["Gaf"], dG=e["dG"]))
        m2.hybrid_method = None
        _, e3 = drv.call(m2.solver.fsolve_steady_state_cvgs, x, None)
        b = [list(m2.solver.coverages), getattr(m2.solver, "_error", None), files()]
        drv.call(m2.solver.get_single_XRC, s["gas"], epsilon=0.25)
        a = [list(m2.solver.coverages), getattr(m2.solver, "_error", None), files()]
        other = ["other-raised"] * bool(e3) + [n for n, u, v in zip(["other-coverages", "other-error", "other-archive"], b, a) if u != v]
    parts = ["coverages", "error", "given-energies", "model-energies", "archive"]
    after = [list(sol.coverages), sol.error, e, m.relative_energies, fl]
    yield dict(s, ev="xrc", exc=exc or e1 or e2, steady=[kin.exact(v, s["D"]) for v in steady_ or []],
               x=[int(round(float(v) * 1000)) for v in xs or []],
               changed=[n for n, a, b in zip(parts, before, after) if a != b] + other)
