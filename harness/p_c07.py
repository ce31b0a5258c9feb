"""C07: rate constants of transition state theory."""
import rates
from rates import run


def from_spec(spec, algo):
    for s in spec:
        if s["algo"] != algo:
            continue
        sp = rates.ener.species(s["rxns"])
        q = {"CO_g": [1, 100], "O2_g": [1, 5], "H2_g": [3, 1], "CO2_g": [1, 1], "N2_g": [2, 1], "NH3_g": [1, 2]}
        yield dict(rxns=s["rxns"], T=s["T"], algo=algo, p=[[x, q[x]] for x in sp if x.endswith("_g")], area=[9, -20], act=[4, 9],
                   hist=[dict(op="one", i=0, e=[dict(gf=h["gf"], gr=h["gr"])], incl=h["incl"], kind=algo,
                              solver=["ss", "mf", "kmc"][k % 3]) for k, h in enumerate(s["hist"])])


def scenarios(rng, tier, spec):
    for s in from_spec(spec, "TST"):
        yield s
    for i in range(2100 if tier == "quick" else 8000):
        yield rates.scenario(rng, "TST")
