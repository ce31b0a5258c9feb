"""C03: decomposition and reversal of reaction texts."""
import gen, drv


def scenarios(rng, tier, spec):
    for s in spec:
        for t in s["rxns"]:
            yield dict(text=t)
    n = 5000 if tier == "quick" else 20000
    for i in range(n):
        g = gen.NetGen(rng, sites=rng.choice(gen.SITES + [("sa", "ss"), ("ab", "b", "a")]), bident=True,
                       ts=0.6, maxcoef=rng.choice([3, 12]), repeat=0.4)
        r = g.step()
        if rng.random() < 0.2:
            r = gen.break_rxn(rng, r)
        if rng.random() < 0.05:    # a number where no sites are taken
            for f in [f for st in r for f in st if f[3] in "gl"][:1]:
                f[2] = rng.choice([2, 3, 12])
        if rng.random() < 0.03:    # large clusters of sites
            for f in [f for st in r for f in st if f[3] not in "gl"][:2]:
                f[2] = rng.choice([100, 128, 1000])
        yield dict(text=gen.rtext(r, rng))


def run(s):
    from scaks.parsers.rxn_parser import RxnEquation
    t = s["text"]

    def work():
        eq = RxnEquation(t)
        sts = eq.tolist()
        fl = eq.to_formula_list()

        def f(x):
            return dict(text=x.formula(), stoich=x.stoichiometry(), sp=x.species(), ss=x.species_site(), nsite=x.nsite(),
                        site=x.site(), type=x.type(), elems=drv.pairs(x.get_elements_dict()),
                        spElems=drv.pairs(x.get_species_elements_dict()), sites=drv.pairs(x.get_sites_dict()))
        rev = eq.revert()
        return dict(states=[[f(x) for x in st] for st in fl],
                    stateElems=[drv.pairs(st.get_elements_dict()) for st in sts],
                    stateSites=[drv.pairs(st.get_sites_dict()) for st in sts],
                    stateSpecies=[drv.pairs(st.get_species_site_dict()) for st in sts],
                    rev=rev.rxn_equation(), rev2=rev.revert().rxn_equation(),
                    ads=[[x.stoichiometry(), x.species_site()] for x in eq.adsorption_gases()],
                    des=[[x.stoichiometry(), x.species_site()] for x in eq.desorption_gases()])
    r, exc = drv.call(work)
    ev = dict(ev="parse", text=t, exc=exc, **(r or {}))
    c, exc = drv.call(lambda: RxnEquation(t).check_conservation())
    ev["conserve"] = exc or "ok"
    yield ev
