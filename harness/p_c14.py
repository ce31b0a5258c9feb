"""C14: solves without analyses."""
import solve
from solve import run


def scenarios(rng, tier, spec):
    for s in solve.from_spec(spec, rng, False, 600 if tier == "quick" else 6000):
        yield s
    for i in range(600 if tier == "quick" else 6000):
        yield solve.random_one(rng, False)
    for i in range(160 if tier == "quick" else 800):
        yield solve.real_one(rng)
    for root in ("MDNewton", "ConstrainedNewton"):  # a column of zeros in the Jacobian
        yield dict(kind="real", rxns=["CO_g + *_s -> CO_s", "CO_t + O_t -> CO2_g + 2*_t"], tot=[["*_s", 4], ["*_t", 4]],
                   p=[["CO_g", 1], ["CO2_g", 0]], c=[], D=4, ord=2, kf=[1, 1], kr=[1, 1], root=root, x=[2, 2, 0], start=[0, 2, 0],
                   mode="newton", guesses=[[0, 2, 0], [0, 2, 0]], id="singular-" + root)
