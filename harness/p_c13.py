"""C13: constrained guesses and Boltzmann coverages."""
import os
import gen, drv, kin, ener


class Stop(BaseException):
    pass


def scenarios(rng, tier, spec):
    for i, s in enumerate(spec):
        yield dict(rxns=s["rxns"], ops=[dict(op="constrain", D=s["D"], tot=s["tot"], x=s["x"], nudge=[], via=["c0", "hyb0", "hyb1"][i % 3])])
    for i in range(1200 if tier == "quick" else 5000):
        g = gen.NetGen(rng, sites=rng.choice(gen.SITES + [("ab", "b", "s")]), liquid=True, ts=0.3)
        net = g.network(1, 5)
        _, _, ads, sites = gen.species_of(net)
        if not ads:
            continue
        ops = []
        for _ in range(rng.randint(1, 3)):
            if rng.random() < 0.6:
                D = rng.choice([2, 3, 4, 7, 10, 16, 64])
                tot = {"*_" + k: rng.choice([D, D, rng.randint(1, D), rng.randint(1, 2 * D)]) for k in sites}
                r = rng.random()
                if r < 0.3:  # physical, often full
                    left, x = dict(tot), {}
                    for a in gen.shuffled(rng, ads):
                        k = "*_" + kin.site_of(a)
                        x[a] = min(D, rng.choice([left[k], rng.randint(0, left[k])]))
                        left[k] -= x[a]
                elif r < 0.6:
                    x = {a: rng.randint(0, D) for a in ads}
                else:
                    big = rng.choice([1, 1, 10, 50])
                    x = {a: rng.choice([0, -rng.randint(1, D), rng.randint(0, D), rng.randint(0, 3 * D), D, -big * rng.randint(1, D), big * rng.randint(1, D)]) for a in ads}
                nudge = {a: rng.choice([0, 0, 1, -1, 30, -30, 100, -100]) for a in ads} if rng.random() < 0.4 else {}
                ops.append(dict(op="constrain", D=D, tot=drv.pairs(tot), x=drv.pairs(x), nudge=drv.pairs(nudge), fine=rng.choice([9, 9, 11, 13]), via=rng.choice(["c0", "hyb0", "hyb1"])))
            else:
                w = rng.choice([100, 600, 3000])
                E = {a: rng.randint(-w, w) for a in ener.species([gen.rtext(r) for r in net])}
                for k in sites:
                    E["*_" + k] = rng.choice([0, 0, rng.randint(-w, w)])
                ops.append(dict(op="boltz", E=drv.pairs(E), empty=rng.random() < 0.5, T=rng.choice([300, 450, 723])))
        yield dict(rxns=[gen.rtext(r, rng) for r in net], ops=ops)


def micro(xs):
    return [int(round(float(x) * 1e6)) if abs(x) < 1000 else 2 ** 29 for x in xs]


def femto(x):
    return int(round(max(-1e-6, min(1e-6, float(x))) * 1e15))


def guess(s, op):
    """The guess the root finder is started with, or the accepted guess."""
    import mpmath as mp
    from scaks.solvers import rootfinding_iterators as it
    sp = gen.species_of([kin.abstract(t) for t in s["rxns"]])
    defs = {"*_" + k: dict(site_name=k, type=k, total=dict(map(tuple, op["tot"]))["*_" + k] / op["D"]) for k in sp[3]}
    defs.update({g: dict(pressure=1.0) for g in sp[0]})
    defs.update({g: dict(concentration=1.0) for g in sp[1]})
    m = drv.make_model(list(s["rxns"]), defs, solver="SteadyStateSolver", max_rootfinding_iterations=1)
    m.solver.get_data()
    x = dict(map(tuple, op["x"]))
    nudge = dict(map(tuple, op["nudge"]))
    xs = tuple(mp.mpf(x[a]) / op["D"] + mp.mpf(nudge.get(a, 0)) / 10 ** op.get("fine", 9) for a in m.adsorbate_names)
    seen, zero = [], tuple(mp.mpf(0) for _ in xs)

    def init(self, *a, **k):
        seen.append(tuple(a[1] if len(a) > 1 else k["x0"]))
        if len(seen) >= (2 if op["via"] == "hyb1" else 1):
            raise Stop()

    def hybrid(model, n):
        return xs
    m.hybrid_method = hybrid
    old = it.MDNewton.__init__, it.MDNewton.__iter__
    it.MDNewton.__init__, it.MDNewton.__iter__ = init, lambda self: iter(())
    n = len(s["rxns"])
    kT = m.kB * m.temperature
    e = dict(Gaf=[30 * kT] * n, Gar=[29 * kT] * n, dG=[kT] * n)
    try:
        res = m.solver.get_steady_state_cvgs(c0=None if op["via"] == "hyb0" else xs if op["via"] == "c0" else zero,
                                             relative_energies=e, single_pt=op["via"] == "hyb1")
        return m, xs, res
    except Stop:
        return m, xs, seen[-1]
    finally:
        it.MDNewton.__init__, it.MDNewton.__iter__ = old


def run(s):
    import mpmath as mp
    from scaks.parsers import AbsoluteEnergyParser
    yield dict(ev="new", rxns=list(s["rxns"]), exc="")
    for i, op in enumerate(s["ops"]):
        if op["op"] == "constrain":
            r, exc = drv.call(guess, s, op)
            m, xs, res = r or (None, (), ())
            least, over, tot = 0, 0, dict(map(tuple, op["tot"]))
            if res and len(res) == len(m.adsorbate_names):
                least = femto(min(res))
                over = max(0, femto(max(res) - 1))
                for k in tot:
                    over = max(over, femto(sum(c for a, c in zip(m.adsorbate_names, res) if "*_" + kin.site_of(a) == k) - mp.mpf(tot[k] / op["D"])))
            yield dict(ev="constrain", D=op["D"], tot=op["tot"], x=op["x"], nudge=any(v for k, v in op["nudge"]), exc=exc, out=micro(res or []), least=least, over=over,
                       same=bool(res) and len(res) == len(xs) and all(abs(a - b) < 1e-15 for a, b in zip(res, xs)))
        else:
            sp = ener.species(s["rxns"])
            m = drv.make_model(list(s["rxns"]), {g: dict(pressure=1.0) for g in sp if g.endswith("_g")}, temperature=float(op["T"]),
                               solver="SteadyStateSolver", parser="AbsoluteEnergyParser")
            kT = m.kB * m.temperature
            fn = "abs_%s_%d.py" % (s["id"], i)
            with open(fn, "w") as f:
                f.write("absolute_energies = %r\n" % {k: v * kT / 100 for k, v in op["E"]})
            m.parser.parse_data(filename=fn)
            os.remove(fn)
            res, exc = drv.call(m.solver.boltzmann_coverages, include_empty_site=op["empty"])
            yield dict(ev="boltz", E=op["E"], empty=op["empty"], exc=exc,
                       out=[int(round(float(mp.log(x)) * 10000)) if x > 0 else 2 ** 29 for x in res or []])
