"""Histories of energies of one model (C04-C06)."""
import os
import gen, drv

UNIT = 15625  # 1/64 eV in micro eV
POOL = [
    "CO_g + *_s -> CO_s", "O2_g + 2*_s -> 2O_s", "O2_g + 2*_s <-> O-O_2s -> 2O_s", "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s",
    "2H2_g + 4*_s -> 4H_s", "H2_g + 2*_s -> H_s + H_s", "3H_s + N_s <-> NH2-H_4s -> NH3_g + 4*_s", "H2O_g + *_s -> H2O_s",
    "2NO_g + 2*_s -> 2NO_s", "NO_g + NO_g + 2*_s -> 2NO_s", "CH4_g + 2*_s <-> CH3-H_2s -> CH3_s + H_s", "N2O_g + *_s -> N2_g + O_s",
    "CO_g + O_s -> CO2_g + *_s", "CO2_g + *_t -> CO2_t", "CO_l + *_s -> CO_s", "HCl_g + 2*_s -> H_s + Cl_s", "O2_g + *_s <-> O2_g + *_s -> O2_s",
    "2CO_g + O2_g + *_s -> 2CO2_g + *_s", "CO_s + *_t -> CO_t + *_s", "CO2_g + H2_g + *_s -> CO_g + H2O_g + *_s", "C2_g + *_s -> C2_s",
    "N2_g + 3H2_g + *_s -> 2NH3_g + *_s", "OC_g + *_s -> OC_s", "2O_s -> O2_g + 2*_s", "CO2_g + *_s -> CO_g + O_s", "CO2_g + *_s <-> CO-O_s -> CO_g + O_s",
]


def energy(rng):
    return rng.choice([0, 0, rng.randint(-200, 200), rng.randint(-200, 200), rng.randint(0, 40)])


def species(rxns):
    import kin
    out = set()
    for t in rxns:
        for st in kin.abstract(t):
            for f in st:
                out.add(gen.sstext(f))
    return sorted(out)


def network(rng):
    if rng.random() < 0.5:
        return rng.sample(POOL, rng.randint(1, 4))
    g = gen.NetGen(rng, sites=rng.choice(gen.SITES), liquid=True, bident=True, ts=0.5)
    if rng.random() < 0.7:
        g.el = ["C", "O", "H", "N"]
    return [gen.rtext(r, rng) for r in (g.network(11, 14) if rng.random() < 0.03 else g.network(1, 4))]


def op_abs(rng, rxns, bad=0.0):
    few = [rng.randint(-200, 200), rng.randint(0, 40)] if rng.random() < 0.25 else None   # states of equal energy
    E = {s: rng.choice(few) if few else energy(rng) for s in species(rxns)}
    if few and rng.random() < 0.5:
        E = {s: E[s] if "-" in s else few[0] for s in E}
    if rng.random() < 0.3:  # extra entries do not matter
        E["Xx_g"] = 7
    d = dict(op="abs", E=[[k, v] for k, v in E.items()])
    if rng.random() < bad:  # a file that lacks a species, or everything
        x = rng.choice(species(rxns) + [None])
        d.update(E=[kv for kv in d["E"] if kv[0] != x], nothing=x is None)
    return d


def op_rel(rng, rxns, bad=0.3):
    n = len(rxns)
    d = dict(op="rel", src=rng.choice(["dict", "file"]), ga=[rng.choice([0, energy(rng), abs(energy(rng))]) for _ in range(n)],
             dg=[energy(rng) for _ in range(n)])
    if rng.random() < bad:
        k = rng.choice(["ga", "dg", "both", "empty", "missing"])
        if k in ("ga", "both"):
            d["ga"] = d["ga"] + [0] if rng.random() < 0.5 else d["ga"][:-1]
        if k in ("dg", "both"):
            d["dg"] = d["dg"] + [0] if rng.random() < 0.5 else d["dg"][1:]
        if k == "empty":
            d["ga"] = []
        if k == "missing":
            d["drop"] = rng.choice(["Ga", "dG"])
    return d


def op_correct(rng):
    return dict(op="correct", method=rng.choice(["shomate", "entropy"]))


SCALE = [1.0]     # energies of the running scenario are divided by this power of two


def micro(xs):
    out = []
    for x in xs:
        try:
            v = int(round(float(x) * SCALE[0] * 1e6))
            out.append(v if abs(v) < 2 ** 29 else 2 ** 29)
        except Exception:
            out.append(2 ** 29)
    return out


def snap(m):
    r = m.relative_energies
    try:
        return dict(gaf=micro(r.get("Gaf", [])), gar=micro(r.get("Gar", [])), dg=micro(r.get("dG", [])))
    except Exception:
        return dict(gaf=[2 ** 29], gar=[], dg=[])


def absolute(m):
    """The absolute energies the model holds, [] when it has none."""
    try:
        return [[str(k), micro([v])[0]] for k, v in sorted(dict(m.absolute_energies).items())]
    except Exception:
        return []


def flags(m):
    return [bool(m.has_relative_energy), bool(m.has_absolute_energy)]


def run(s):
    from scaks.parsers import RelativeEnergyParser, AbsoluteEnergyParser
    rxns = list(s["rxns"])
    sp = species(rxns)
    SCALE[0] = z = 2.0 ** s.get("pow", 0)
    defs = {}
    for x in sp:
        if x.endswith("_g"):
            defs[x] = dict(pressure=s.get("p", 1.0))
    m, exc = drv.call(drv.make_model, rxns, defs, temperature=float(s.get("T", 500)), parser=s.get("parser", "RelativeEnergyParser"),
                      corrector="ThermodynamicCorrector")
    yield dict(ev="new", rxns=rxns, exc=exc)
    if exc:
        return
    pa, pr = AbsoluteEnergyParser(owner=m), RelativeEnergyParser(owner=m)
    for i, o in enumerate(s["hist"]):
        if o["op"] == "abs":
            fn = "abs_%s_%d.py" % (s["id"], i)
            with open(fn, "w") as f:
                if not o.get("nothing"):
                    f.write("absolute_energies = %r\n" % {k: v / 64.0 / z for k, v in o["E"]})
            _, exc = drv.call(pa.parse_data, filename=fn)
            os.remove(fn)
            yield dict(ev="abs", nothing=bool(o.get("nothing")), E=[[k, v * UNIT] for k, v in o["E"]], exc=exc, out=snap(m), has=flags(m),
                       abs=absolute(m))
        elif o["op"] == "rel":
            d = dict(Ga=[x / 64.0 / z for x in o["ga"]], dG=[x / 64.0 / z for x in o["dg"]])
            d.pop(o.get("drop"), None)
            if o.get("src") == "file":
                fn = "rel_%s_%d.py" % (s["id"], i)
                with open(fn, "w") as f:
                    f.write("".join("%s = %r\n" % kv for kv in d.items()))
                _, exc = drv.call(pr.parse_data, filename=fn)
                os.remove(fn)
            else:
                _, exc = drv.call(pr.parse_data, energy_data=d)
            yield dict(ev="rel", complete=len(d) == 2, ga=[x * UNIT for x in o["ga"]], dg=[x * UNIT for x in o["dg"]], exc=exc,
                       out=snap(m), has=flags(m))
        else:
            meth = o["method"]
            if isinstance(meth, int):
                meth = "shomate" if meth < 0 else "entropy"
            f = m.corrector.shomate_correction if meth == "shomate" else m.corrector.entropy_correction
            shift = [[x, micro([f(x)])[0]] for x in sp]
            res, exc = drv.call(m.corrector.correct_relative_energies, m.relative_energies, method=meth)
            yield dict(ev="correct", method=meth, shift=shift, exc=exc, out=snap(m))
