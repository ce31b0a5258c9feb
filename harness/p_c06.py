"""C06: thermodynamic corrections."""
import ener
from ener import run


def scenarios(rng, tier, spec):
    for s in spec:
        ok = False  # corrections need energies to correct
        for o in s["hist"]:
            ok = ok or o["op"] == "abs" or (o["op"] == "rel" and len(o["ga"]) == len(s["rxns"]) == len(o["dg"]))
            if o["op"] == "correct" and not ok:
                break
        else:
            yield s
    for i in range(2400 if tier == "quick" else 8000):
        r = ener.network(rng)
        load = ener.op_abs(rng, r) if rng.random() < 0.5 else ener.op_rel(rng, r, 0)
        h = [load] + [ener.op_correct(rng) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.3:
            h += [ener.op_rel(rng, r, 0.2), ener.op_correct(rng)]
        yield dict(rxns=r, hist=h, T=rng.choice([300, 350, 400, 450, 500, 600, 650]), p=rng.choice([1.0, 0.5, 0.01, 30.0]))
