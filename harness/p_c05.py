"""C05: relative energy input."""
import ener
from ener import run


def scenarios(rng, tier, spec):
    for s in spec:
        h = [o for o in s["hist"] if o["op"] != "correct"]
        if h:
            yield dict(rxns=s["rxns"], hist=h)
    for i in range(3000 if tier == "quick" else 15000):
        r = ener.network(rng)
        yield dict(rxns=r, hist=[ener.op_rel(rng, r) if rng.random() < 0.85 else ener.op_abs(rng, r) for _ in range(rng.randint(1, 4))],
                   pow=rng.choice([0, 0, 0, 0, -5, 4, 8, 14, 20, 24]))
