"""C02: species inventory and stoichiometry matrices."""
import gen, drv


def scenarios(rng, tier, spec):
    n = 2000 if tier == "quick" else 6000
    for i in range(n):
        g = gen.NetGen(rng, sites=rng.choice(gen.SITES + [("ab", "b", "a"), ("gl", "l1"[:1] + "g")]),
                       bident=True, ts=0.6, catalyst=0.3, repeat=0.4, maxcoef=rng.choice([3, 3, 12]))
        net = g.network(1, 6) if rng.random() < 0.95 else g.network(*rng.choice([(10, 16), (25, 40)]))
        if rng.random() < 0.1:     # a transition state on its own
            net = [x for r in net for x in ([r] if len(r) == 2 else rng.choice([[r[:2], r[1:]], [r[1:], r]]))]
        yield dict(rxns=[gen.rtext(r, rng) for r in net])


def run(s):
    m, exc = drv.call(drv.make_model, list(s["rxns"]), {})
    ev = dict(ev="inventory", rxns=s["rxns"], exc=exc)
    if not exc:
        ev.update(gas=list(m.gas_names), liq=list(m.liquid_names), ads=list(m.adsorbate_names),
                  ts=list(m.transition_state_names), sites=list(m.site_names))
        r, exc = drv.call(m.parser.get_stoichiometry_matrices)
        ev["exc"] = exc
        if not exc:
            ev["smat"], ev["fmat"] = drv.ints(r[0].tolist()), drv.ints(r[1].tolist())
    yield ev
