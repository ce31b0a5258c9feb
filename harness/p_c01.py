"""C01: the conservation gate of model construction."""
import gen, drv


def scenarios(rng, tier, spec):
    for s in spec:
        yield dict(rxns=s["rxns"], src=s["src"])
    n = 4000 if tier == "quick" else 12000
    for i in range(n):
        g = gen.NetGen(rng, sites=rng.choice(gen.SITES + [("ab", "b", "a")]), bident=True, ts=0.6,
                       maxcoef=rng.choice([3, 3, 3, 12, 25]))
        net = g.network(1, 4) if rng.random() < 0.97 else g.network(*rng.choice([(10, 15), (10, 15), (25, 40)]))
        if rng.random() < 0.65:
            k = rng.randrange(len(net))
            net[k] = gen.break_rxn(rng, net[k])
        if rng.random() < 0.06:    # a transition state that is the initial or the final state
            k = rng.randrange(len(net))
            r = [net[k][0], rng.choice([net[k][0], net[k][-1]]), net[k][-1]]
            if rng.random() < 0.7:
                j = rng.randrange(3)
                r[j] = gen.break_rxn(rng, [r[j]])[0]
            net[k] = r
            yield dict(rxns=[gen.rtext(x) for x in net], src="random")
            continue
        yield dict(rxns=[gen.rtext(r, rng) for r in net], src="random")


def run(s):
    from scaks.parsers.rxn_parser import RxnEquation
    each = []
    for t in s["rxns"]:
        r, exc = drv.call(lambda: RxnEquation(t).check_conservation())
        each.append("ok" if exc == "" and r is True else exc or "false")
    m, exc = drv.call(drv.make_model, list(s["rxns"]), {})
    yield dict(ev="load", rxns=s["rxns"], outcome=exc or "ok", each=each)
