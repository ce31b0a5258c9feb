"""C04: relative energies from absolute ones."""
import ener
from ener import run


def scenarios(rng, tier, spec):
    for s in spec:
        h = [o for o in s["hist"] if o["op"] == "abs"]
        if h:
            yield dict(rxns=s["rxns"], hist=h)
    for i in range(3000 if tier == "quick" else 12000):
        r = ener.network(rng)
        yield dict(rxns=r, parser=rng.choice(["AbsoluteEnergyParser", "RelativeEnergyParser"]),
                   hist=[ener.op_abs(rng, r, 0.2) if rng.random() < 0.8 else ener.op_rel(rng, r, 0) for _ in range(rng.randint(1, 3))],
                   pow=rng.choice([0, 0, 0, 0, -5, 4, 8, 14, 20, 24]))
