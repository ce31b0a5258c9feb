"""C11: the analytical Jacobian is the derivative of the residual."""
import kin, drv


def scenarios(rng, tier, spec):
    yield from kin.networks(rng, 350 if tier == "quick" else 4000, spec, bident=True, shift=True)


def run(s):
    m = kin.model(s["rxns"], s)
    e, x = kin.energies(m, s), kin.cvgs(m, s)
    res, exc = drv.call(m.solver.analytical_jacobian, x, e)
    j = [] if exc else [kin.exacts(kin.unshift(row, s), s["D"] ** s["ord"]) for row in res.tolist()]
    num = []
    if not exc and len(s["rxns"]) % 2 == 0 and len(x) <= 4:
        for d in ("right", "left"):
            r, exc = drv.call(numeric, m, e, x, d)
            num.append([[kin.BIG]] if exc else [kin.exacts(kin.unshift(row, s), s["D"] ** s["ord"]) for row in r.tolist()])
        # with the step the helper has from the start, up to the curvature
        r, exc = drv.call(numeric, m, e, x, "right" if len(x) % 2 else "left", False)
        near = 1e-9 * s["D"] * kin.bound([kin.abstract(t) for t in s["rxns"]], s)
        num.append([[kin.BIG]] if exc else [[kin.close(v, s["D"] ** s["ord"], near) for v in kin.unshift(row, s)] for row in r.tolist()])
        exc = ""
    yield dict(s, ev="jac", exc=exc, jac=j, num=num)


def numeric(m, e, x, d, exact=True):
    """The differences of the residual, with enough digits to be exact."""
    import mpmath as mp
    from scaks.functions import numerical_jacobian
    with mp.workdps(100):
        return numerical_jacobian(lambda q: list(m.solver.steady_state_function(tuple(q), e)), mp.matrix([mp.mpf(v) for v in x]), mp.matrix,
                                  num_repr="mpmath", direction=d, **(dict(h=mp.mpf(10) ** -40) if exact else {}))
