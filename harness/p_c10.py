"""C10: coverage derivatives are the net production."""
import kin, drv


def scenarios(rng, tier, spec):
    for i, st in enumerate(kin.networks(rng, 600 if tier == "quick" else 6000, spec, bident=True, shift=True)):
        # The sites taken by adsorbates on several sites are the known finding.
        yield dict(st, single=all(f[2] == 1 for r in map(kin.abstract, st["rxns"]) for x in r for f in x if "-" not in f[1]))
    # A bidentate adsorbate is counted once in the free-site coverage.
    yield dict(id="kf-bidentate", rxns=["O2_g + 2*_s -> O2_2s", "CO_g + *_s -> CO_s"], theta=[["O2_2s", 1], ["CO_s", 1]],
               tot=[["*_s", 4]], p=[["O2_g", 1], ["CO_g", 1]], c=[], kf=[1, 1], kr=[3, 1], D=4, ord=2, single=True)


def run(s):
    m = kin.model(s["rxns"], s)
    e, x = kin.energies(m, s), kin.cvgs(m, s)
    y = kin.cvgs(m, dict(s, theta=[[a, 0] for a, _ in s["theta"]]))
    first, exc = drv.call(m.solver.steady_state_function, x, e)
    drv.call(m.solver.steady_state_function, y, e)
    res, exc2 = drv.call(m.solver.steady_state_function, x, e)
    yield dict(s, ev="dtheta", exc=exc or exc2, again=list(map(str, first or [])) == list(map(str, res or [])), dtheta=kin.exacts(kin.unshift(res or [], s), s["D"] ** s["ord"]))
