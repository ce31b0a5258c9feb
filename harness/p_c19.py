"""C19: expansion of process definitions."""
import os
import fakekmc
fakekmc.install()
import drv, rates

NEEDED = ["reaction", "coordinates_group", "elements_before", "elements_after", "basis_sites"]
SPEC = ["CO_g + *_s -> CO_s", "CO_s + *_t -> CO_t + *_s"]
U = 10 ** 7


def S(x):
    return dict(t="str", s=x, n=0, v=[])


def I(k):
    return dict(t="int", s="", n=k, v=[])


def F(k):
    return dict(t="float", s="", n=k, v=[])


def B(b):
    return dict(t="bool", s="", n=int(b), v=[])


def L(q, t="list"):
    return dict(t=t, s="", n=0, v=list(q))


def dec(x):
    t = x["t"]
    if t in ("list", "tuple"):
        v = [dec(y) for y in x["v"]]
        return v if t == "list" else tuple(v)
    return {"str": lambda: x["s"], "int": lambda: x["n"], "float": lambda: x["n"] / float(U), "bool": lambda: bool(x["n"]), "none": lambda: None}[t]()


def coords(rng, n):
    grid = [0, 5000000, -5000000, 10000000, -10000000, 3333333, 2500000, 15]
    pts = []
    while len(pts) < n:
        p = [rng.choice(grid), rng.choice(grid), rng.choice([0, 0, 0, 5000000])]
        if pts and rng.random() < 0.2:     # close to another point, but apart
            p = list(rng.choice(pts))
            p[rng.randrange(3)] += rng.choice([-1, 1]) * rng.choice([12, 20, 100])
        if all(any(abs(x - y) > 11 for x, y in zip(p, q)) for q in pts):
            pts.append(p)
    return L([L([F(x) for x in p]) for p in pts])


def definition(rng, rxns, elements, nbasis):
    n = rng.randint(1, 4) if rng.random() < 0.9 else rng.randint(5, 13)
    seq = lambda q, p=0.15: L(q, "tuple" if rng.random() < p else "list")
    d = dict(reaction=S(rng.choice(rxns)), coordinates_group=seq([coords(rng, n) for _ in range(rng.choice([1, 1, 2, 3, 0]) if rng.random() < 0.9 or n > 4 else rng.randint(4, 12))]),
             elements_before=seq([S(rng.choice(elements + ["*"])) for _ in range(n)]), elements_after=seq([S(rng.choice(elements + ["*"])) for _ in range(n)]),
             basis_sites=seq([I(i) for i in rng.sample(range(nbasis), rng.randint(1, nbasis))]))
    if rng.random() < 0.4:
        d["fast"] = B(rng.random() < 0.6)
    if rng.random() < 0.4:
        d["redist"] = B(rng.random() < 0.7)
    if rng.random() < 0.25:
        d["redist_species"] = L([S(x) for x in rng.sample(elements, rng.randint(1, len(elements)))])
    if rng.random() < 0.15:
        d["comment"] = S("extra")
    return d


def spoil(rng, d):
    d = dict(d)
    n = len(d["elements_before"]["v"])
    k = rng.randrange(11)
    if k == 0:
        d.pop(rng.choice(NEEDED))
    elif k == 1:
        d["reaction"] = rng.choice([S(d["reaction"]["s"] + " "), S("Xe_g + *_s -> Xe_s"), I(0), L([d["reaction"]])])
    elif k == 2:
        d[rng.choice(["elements_before", "elements_after"])] = rng.choice([L([S("V")] * (n + 1)), L([S("Q")] * n), L([I(1)] * n), S("V" * n), L([F(0)] * n)])
    elif k == 3:
        q = d[rng.choice(["elements_before", "elements_after"])]
        q = [x for x in q["v"]]
        q[rng.randrange(n)] = S(rng.choice(["Q", "Q", "V1", "VO", "Co", "co", "C2", "CO ", "O_", "**"]))
        d[rng.choice(["elements_before", "elements_after"])] = L(q)
    elif k == 4:
        d["basis_sites"] = rng.choice([I(0), L([F(0)]), L([S("0")]), L([L([I(0)])]), S("0")])
    elif k in (5, 6, 7):          # two points coincide in one of the sets
        c = coords(rng, n + 1)
        p = [dict(x) for x in rng.choice(c["v"][:n])["v"]]
        j = rng.randrange(3)
        p[j] = F(p[j]["n"] + rng.choice([0, 0, 5, -8, 9]))
        c["v"].insert(rng.randint(0, n), L(p))
        c["v"] = c["v"][:]
        m = len(c["v"])
        d["elements_before"] = L([S("*")] * m)
        d["elements_after"] = L([S("*")] * m)
        d["coordinates_group"] = L(([coords(rng, m)] if rng.random() < 0.5 else []) + [c])
    elif k == 8:
        c = coords(rng, n)
        j = rng.randrange(n)
        c["v"][j] = rng.choice([L(c["v"][j]["v"][:2]), L(c["v"][j]["v"] + [F(0)]), L([F(0), I(0), F(0)]), L(c["v"][j]["v"], "tuple"), F(0)])
        d["coordinates_group"] = L([coords(rng, n)] * (rng.random() < 0.5) + [c])
    elif k == 9:
        d["coordinates_group"] = rng.choice([S("ab"), I(1), L([L(coords(rng, n)["v"], "tuple")]), coords(rng, n), L([I(0)])])
    else:                         # one set with another number of points
        d["coordinates_group"] = L([coords(rng, n), coords(rng, n + 1)])
    return d


def base(rng, spec_rxns=None):
    algo = rng.choice(["TST", "TST", "CT"])
    while True:
        s = rates.scenario(rng, algo)
        if s["area"][0] > 0 and s["act"][0] <= s["act"][1] and len(set(s["rxns"])) == len(s["rxns"]):
            break
    if spec_rxns:
        s["rxns"] = list(spec_rxns)
        s["p"] = [["CO_g", rates.pressure(rng)]]
    while True:
        e = rates.energies(rng, len(s["rxns"]))
        if all(x["gf"] != 0 or x["gf"] - x["gr"] <= 0 for x in e):
            break
    s.pop("hist")
    if algo == "TST" and rng.random() < 0.15:    # too slow for any number
        x = rng.choice(e)
        x[rng.choice(["gf", "gr"])] += 90000
    return dict(s, e=e, seed=rng.randrange(10 ** 6))


def scenarios(rng, tier, spec):
    q = tier == "quick"
    cap = 250 if q else 3000
    for s in spec if len(spec) <= cap else rng.sample(spec, cap):
        yield dict(base(rng, SPEC), elements=["V", "CO"], hist=[dict(defs=[list(map(list, d.items())) for d in s["defs"]], how=["get"] * s["asks"])])
    for _ in range(500 if q else 6000):
        s = base(rng)
        elements = rng.sample(["V", "CO", "O", "O_s", "C"], rng.randint(1, 4))
        hist = []
        for _ in range(rng.choice([1, 1, 2])):
            ds = [definition(rng, s["rxns"], elements, 3) for _ in range(rng.randint(0 if hist else 1, 4))]
            if rng.random() < 0.35 and ds:
                i = rng.randrange(len(ds))
                ds[i] = spoil(rng, ds[i])
            hist.append(dict(defs=[list(map(list, d.items())) for d in ds], how=rng.choice([["get"], ["prop"], ["prop", "get"], ["get", "prop", "prop"], ["run"]])
                             if not hist else ["get"] * rng.randint(1, 2)))
        yield dict(s, elements=elements, hist=hist)


def model(s, **kw):
    from scaks.models.kmc_model import KMCModel
    rx, defs, k = rates.build(s)
    d = dict(k, rxn_expressions=rx, species_definitions=defs, parser="KMCParser", solver="KMCSolver", possible_element_types=s["elements"],
             empty_type=s["elements"][0], possible_site_types=["P"], basis_sites=[[0.0, 0.0, 0.0], [0.5, 0.0, 0.0], [0.0, 0.5, 0.0]])
    d.update(kw)
    try:
        return KMCModel(setup_dict=d, logger_level=50, file_handler_level=50, console_handler_level=50)
    finally:
        drv.quiet_handlers()


def write(name, text):
    with open(name, "w") as f:
        f.write(text)


def energy_file(s):
    e = rates.evs(s["e"], float(s["T"]))
    write("rel_energy.py", "Ga = %r\ndG = %r\n" % (e["Gaf"], e["dG"]))


def digest(p):
    kw = dict(p.kw)
    ints = lambda q: [int(round(float(x) * U)) for x in q]
    try:
        return dict(coords=[ints(c) for c in kw["coordinates"]], before=list(kw["elements_before"]), after=list(kw["elements_after"]),
                    basis=list(kw["basis_sites"]), ln=rates.ln4(kw["rate_constant"]), fast=bool(kw.get("fast", False)),
                    redist=bool(kw.get("redist", False)), species=list(kw.get("redist_species") or []))
    except Exception as x:
        return dict(coords=[], before=[], after=[], basis=[], ln=rates.BIG, fast=False, redist=False, species=[type(x).__name__])


def run(s):
    import KMCLib
    m, exc = drv.call(model, s)
    yield dict({k: s[k] for k in ("rxns", "T", "p", "area", "act", "algo", "elements", "e")}, ev="kmodel", exc=exc)
    if exc:
        return
    energy_file(s)
    for i, h in enumerate(s["hist"]):
        name = "procs%d.py" % i
        write(name, "processes = %r\n" % [dict((k, dec(v)) for k, v in d) for d in h["defs"]])
        _, exc = drv.call(m.parser.parse_data, processes_file=name)
        if exc:
            yield dict(ev="parse " + exc)
            return
        for how in h["how"]:
            ps, same = None, True
            if how == "get":
                ps, exc = drv.call(m.solver.get_processes)
            elif how == "prop":
                ps, exc = drv.call(lambda: m.solver.processes)
            else:
                KMCLib.KMCLatticeModel.runs[:] = []
                _, exc = drv.call(m.run, scripting=False)
                if not exc:
                    runs = KMCLib.KMCLatticeModel.runs
                    same = len(runs) == 1
                    ps = list(runs[0][0].kw["interactions"].kw["processes"]) if same else []
                    same = same and [digest(p) for p in ps] == [digest(p) for p in m.processes] and list(m.process_mapping) == list(m.solver.process_mapping)
            yield dict(ev="ask", defs=h["defs"], exc=exc, procs=[digest(p) for p in ps or []], same=same,
                       mapping=list(m.solver.process_mapping) if not exc else [])
            if exc:
                break
