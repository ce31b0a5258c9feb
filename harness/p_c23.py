"""C23: the total reaction."""
import gen, drv, kin


def chain(rng):
    """Steps of a random mechanism with a unique total reaction, in random directions, with random extras."""
    s = rng.choice(["s", "t", "ab"])
    t = rng.choice([s, s, "u"])
    a, b = rng.sample(["C", "O", "N", "S", "Cl", "H"], 2)
    n, m, k = rng.choice([1, 2, 2, 3]), rng.choice([1, 2, 2, 3, 4]), rng.choice([1, 1, 2, 3])
    A, B = gen.mol((a, n)), gen.mol((b, m))
    prod = gen.mol((a, 1), (b, k))
    ph = rng.choice(["g", "g", "l"])
    f = gen.fm
    rx = [[[f(1, A, "g"), f(n, "*", s)], [f(n, a, s)]],
          [[f(1, B, ph), f(m, "*", t)], [f(m, b, t)]]]
    r = rng.random()
    stars = [f(1, "*", s), f(k, "*", t)] if s != t else [f(1 + k, "*", s)]
    if r < 0.4:
        rx.append([[f(1, a, s), f(k, b, t)], [f(1, prod, "g")] + stars])
    else:
        rx.append([[f(1, a, s), f(k, b, t)], [f(1, prod, s)] + (stars[1:] if s != t else [f(k, "*", s)])])
        rx.append([[f(1, prod, s)], [f(1, prod, rng.choice(["g", "l"])), f(1, "*", s)]])
    if rng.random() < 0.3:    # a step that takes no part
        rx.append([[f(1, "NO", "g"), f(1, "*", s)], [f(1, "NO", s)]])
    if rng.random() < 0.2:    # a second one
        rx.append([[f(1, a, s), f(1, "*", "v")], [f(1, a, "v"), f(1, "*", s)]])
    if rng.random() < 0.15:   # dead ends
        rx.pop(rng.randrange(len(rx)))
    if rng.random() < 0.1:
        rx.append([[f(2, "CO", "g"), f(1, "O2", "g")], [f(2, "CO2", "g")]])
    if rng.random() < 0.2:    # a catalyst
        r0 = rng.choice(rx)
        r0[0].append(f(1, "Co", s))
        r0[1].append(f(1, "Co", s))
    for r0 in rx:
        c = rng.choice([1, 1, 1, 2, 3])
        for st in r0:
            for q in st:
                q[0] *= c
        if rng.random() < 0.3:
            r0.reverse()
    return gen.shuffled(rng, [x for x in rx if gen.conserved(x)])


def long_chain(rng):
    """A mechanism of many steps in a row: adsorption, a walk over sites or a
    stepwise hydrogenation, desorption."""
    f, n = gen.fm, rng.randint(5, 16)
    if rng.random() < 0.5:
        sites = rng.sample("abcdefhijkmnopqrs", n)
        rx = [[[f(1, "CO", "g"), f(1, "*", sites[0])], [f(1, "CO", sites[0])]]]
        for x, y in zip(sites, sites[1:]):
            rx.append([[f(1, "CO", x), f(1, "*", y)], [f(1, "CO", y), f(1, "*", x)]])
        rx.append([[f(1, "CO", sites[-1])], [f(1, "OC", rng.choice("gl")), f(1, "*", sites[-1])]])
    else:
        n = rng.randint(2, 9)
        h = lambda k: gen.mol(("N", 1), ("H", k)) if k else "N"
        rx = [[[f(1, "N2", "g"), f(2, "*", "s")], [f(2, "N", "s")]], [[f(1, "H2", "g"), f(2, "*", "s")], [f(2, "H", "s")]]]
        for k in range(n):
            rx.append([[f(1, h(k), "s"), f(1, "H", "s")], [f(1, h(k + 1), "s"), f(1, "*", "s")]])
        rx.append([[f(1, h(n), "s")], [f(1, h(n), "g"), f(1, "*", "s")]])
    for r in rx:
        if rng.random() < 0.2:
            r.reverse()
    return gen.shuffled(rng, rx)


def doubling(rng):
    """A growing molecule: the first step runs many times for one of the last."""
    f = gen.fm
    e, a, ph = rng.choice("HOCN"), 1, rng.choice("ggl")
    rx = [[[f(1, e, "g"), f(1, "*", "s")], [f(1, e, "s")]]]
    while True:
        k = rng.choice([2, 2, 3, 5])
        if a * k > 4000 or rng.random() < 0.04:
            break
        rx.append([[f(k, gen.mol((e, a)), "s")], [f(1, gen.mol((e, a * k)), "s"), f(k - 1, "*", "s")]])
        a *= k
    rx.append([[f(1, gen.mol((e, a)), "s")], [f(1, gen.mol((e, a)), ph), f(1, "*", "s")]])
    for r in rx:
        if rng.random() < 0.2:
            r.reverse()
    return gen.shuffled(rng, rx)


def scenarios(rng, tier, spec):
    for s in spec:
        yield dict(rxns=s["rxns"])
    for i in range(2500 if tier == "quick" else 9000):
        net = chain(rng) if rng.random() < 0.8 else gen.NetGen(rng, liquid=True).network(2, 5)
        if net:
            yield dict(rxns=[gen.rtext(r, rng) for r in net])
    for i in range(100 if tier == "quick" else 900):
        yield dict(rxns=[gen.rtext(r, rng) for r in (doubling if i % 3 == 0 else long_chain)(rng)])


def run(s):
    m = drv.make_model(list(s["rxns"]), {})
    out, exc = drv.call(m.parser.get_total_rxn_equation)
    yield dict(ev="total", rxns=s["rxns"], exc=exc, out=out or "")
