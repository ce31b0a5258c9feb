"""C08: collision theory."""
import rates
from rates import run
from p_c07 import from_spec


def scenarios(rng, tier, spec):
    for s in from_spec(spec, "CT"):
        yield s
    for i in range(2100 if tier == "quick" else 8000):
        yield rates.scenario(rng, "CT")
