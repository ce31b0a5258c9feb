"""C33: LaTeX texts and the algebra of formulas."""
import os, random
import gen, drv, kin

POOL = ["CO_g", "CO_s", "2CO_s", "OC_s", "CO_2s", "C-O_s", "*_s", "2*_s", "*_2s", "CO_l", "CO_t", "C2H4_s", "CHCH3_s", "CH2-CH2_s", "*_t",
        "2C_s", "C2_s", "Co_s", "10O_s", "O10_s", "H2O_g", "2HO_g", "Cl2_s", "2Cl_s", "CH3-CO-OH_3s", "*_ab", "CO_ab"]


def scenarios(rng, tier, spec):
    q = tier == "quick"
    for s in spec if len(spec) <= 1500 else rng.sample(spec, 1500 if q else 20000):
        yield dict(ev="tex", text=s["text"])
    for i in range(1500 if q else 15000):
        g = gen.NetGen(rng, sites=rng.choice(gen.SITES + [("sa", "ss")]), bident=True, ts=0.6, maxcoef=rng.choice([3, 12, 120]), repeat=0.4)
        yield dict(ev="tex", text=gen.rtext(g.step(), rng))
    for a in POOL:
        for b in POOL:
            yield dict(ev="pair", a=a, b=b)
    for i in range(300 if q else 3000):
        f = [gen.ftext(x) for st in gen.NetGen(rng, bident=True, ts=0.5, maxcoef=3).step() for x in st]
        yield dict(ev="pair", a=rng.choice(f), b=rng.choice(f))
    for i in range(25 if q else 200):
        rx = [gen.rtext(r, rng) for r in gen.NetGen(rng, sites=rng.choice([("s",), ("s", "t")]), ts=0.3, maxcoef=2).network(1, 3)]
        yield dict(ev="log", rxns=rx, calls=[rng.choice(["rates", "dtheta", "none", "rates-quiet"]) for _ in range(rng.randint(1, 4))])


def run(s):
    return dict(tex=tex, pair=pair, log=log)[s["ev"]](s)


def tex(s):
    from scaks.parsers.rxn_parser import RxnEquation

    def work():
        q = RxnEquation(s["text"])
        st = q.tolist()
        return dict(tex=q.texen(), states=[x.texen() for x in st], forms=[[f.texen() for f in x.tolist()] for x in st],
                    list=[list(x.get_species_site_list()) for x in st], rev=q.revert().texen())
    r, exc = drv.call(work)
    yield dict(ev="tex", text=s["text"], exc=exc, **(r or {}))


def pair(s):
    from scaks.parsers.rxn_parser import ChemFormula, ChemState
    a, b = ChemFormula(s["a"]), ChemFormula(s["b"])

    def ok(x, y):
        r, exc = drv.call(x.conserve, y)
        return exc or ("ok" if r is True else repr(r))
    t, exc = drv.call(lambda: (a + b).chem_state())
    other = {ok(a, s["b"]), ok(a, ChemState(s["a"])), ok(ChemState(s["a"]), a), ok(ChemState(s["a"]), s["a"])}
    yield dict(ev="pair", a=s["a"], b=s["b"], exc=exc, sum=t or "", conserve=ok(a, b), state=ok(ChemState(s["a"]), ChemState(s["b"])),
               other=" ".join(sorted(other)))


def log(s):
    import sympy
    rx = s["rxns"]
    if os.path.exists("formulas.tex"):
        os.remove("formulas.tex")
    fm = [f for t in rx for st in kin.abstract(t) for f in st]
    defs = dict((gen.sstext(f), dict(pressure=1.0)) for f in fm if f[3] == "g")
    defs.update((gen.sstext(f), dict(concentration=1.0)) for f in fm if f[3] == "l")
    defs.update(("*_" + f[3], dict(site_name="1", type="site", total=1.0)) for f in fm if f[3] not in "gl")
    e = dict(ev="log", rxns=rx, calls=s["calls"], exc="", lines=[], f=[], r=[], d=[])
    try:
        m = drv.make_model(rx, defs, solver="SteadyStateSolver")
        open("rel.py", "w").write("Ga, dG = %r, %r\n" % ([0.5] * len(rx), [-0.5] * len(rx)))
        m.parser.parse_data(filename="rel.py")
        m.solver.get_data_symbols()
        f, r = m.solver.get_rate_syms()
        d = m.solver.get_dtheta_dt_syms()
        e.update(f=[sympy.latex(x) for x in f], r=[sympy.latex(x) for x in r], d=[sympy.latex(x) for x in d])
        for c in s["calls"]:
            if c == "rates":
                m.solver.get_rate_syms(log_latex=True)
            elif c == "dtheta":
                m.solver.get_dtheta_dt_syms(log_latex=True)
            elif c == "rates-quiet":
                m.solver.get_rate_syms()
        if os.path.exists("formulas.tex"):
            for x in open("formulas.tex"):
                if x.strip():
                    a, b = x.strip().split(" = ", 1)
                    e["lines"].append([a, b[:-2] if b.endswith("\\\\") else "no end of line"])
    except Exception as x:
        e["exc"] = type(x).__name__
    yield e
