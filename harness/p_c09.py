"""C09: elementary rates follow mass action."""
import kin, drv


def scenarios(rng, tier, spec):
    for st in kin.networks(rng, 500 if tier == "quick" else 5000, spec, bident=True, maxk=9, shift=True):
        st["algo"] = "rates"
        yield st
    # Two reactions of the same text share the rate constants of the first.
    yield dict(id="kf-duplicate", algo="rates", rxns=["CO_g + *_s -> CO_s", "CO_g + *_s -> CO_s"], theta=[["CO_s", 1]],
               tot=[["*_s", 4]], p=[["CO_g", 2]], c=[], kf=[1, 3], kr=[3, 5], D=4, ord=1)
    for i in range(100):
        n = rng.randint(1, 6)
        k = n if rng.random() < 0.85 else n + rng.choice([-1, 1])
        yield dict(algo="rev", mag=rng.choice([[0, 0], [0, 0], [-15, -15], [-20, 5], [10, -12], [0, 30], [40, 40]]), rxns=["A%d_g + *_s -> A%d_s" % (j + 2, j + 2) for j in range(n)],
                   a=[rng.randint(1, 97) for _ in range(n)], b=[rng.randint(0, 97) for _ in range(k)])


def run(s):
    if s["algo"] == "rev":
        m = drv.make_model([r.replace("A", "C") for r in s["rxns"]], {"*_s": dict(site_name="s", type="s", total=1.0)},
                           solver="SteadyStateSolver")
        f, b = 10.0 ** s["mag"][0], 10.0 ** s["mag"][1]
        res, exc = drv.call(m.solver.get_reversibilities, [x * f for x in s["a"]], [x * b for x in s["b"]])
        res = [x * (f / b) for x in res or []]
        yield dict(ev="rev", a=s["a"], b=s["b"], exc=exc, rev=[int(round(x * 10000)) for x in res or []])
        return
    m = kin.model(s["rxns"], s)
    e = kin.energies(m, s)
    x = kin.cvgs(m, s)
    sc = s["D"] ** s["ord"]
    res, exc = drv.call(m.solver.get_rates, x, e)
    net, exc2 = drv.call(m.solver.get_net_rates, x, e)
    rf, rr = res or ([], [])
    yield dict(s, ev="rates", exc=exc or exc2, rf=kin.exacts(kin.unshift(rf, s), sc), rr=kin.exacts(kin.unshift(rr, s), sc),
               net=kin.exacts(kin.unshift(net or [], s), sc), free=[])
