"""C15: solves with on-the-fly analyses."""
import solve
from solve import run


def scenarios(rng, tier, spec):
    for s in solve.from_spec(spec, rng, True, 600 if tier == "quick" else 6000):
        yield dict(s, foreign=rng.random() < 0.3)
    for i in range(600 if tier == "quick" else 6000):
        yield solve.random_one(rng, True)
    for kind in ("int", "float", "bool", "str", "none", "list"):
        for n in (-4, -2, -1, 0, 1, 2, 3, 4, 2000) if kind in ("int", "float") else (0, 2):
            if kind != "int" or n % 2 == 0:
                for style in ("plain", "base", "split", "mixin", "twice"):
                    yield dict(kind="declare", iv=[kind, n], style=style)
