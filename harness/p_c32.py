"""C32: Python input files, templates, and texts that are read back."""
import math, os, random
import drv, gen, ener
import fakekmc
fakekmc.install()
import p_c24, p_c19
from p_c17 import enc

ATTRS = ["temperature", "unitcell_area", "active_ratio"]
NAMES = ATTRS + ["x", "y"]
BIG = 2 * 10 ** 9
NET = ["CO_g + *_s -> CO_s", "O2_g + 2*_s -> 2O_s", "CO_s + O_s -> CO2_g + 2*_s"]
DEFS = {"CO_g": {"pressure": 1.0}, "O2_g": {"pressure": 0.5}, "CO2_g": {"pressure": 0.25}, "*_s": {"site_name": "111", "type": "site", "total": 1.0}}


def stmt(rng, names=NAMES):
    k = rng.choice(["set", "set", "set", "glob", "imp", "add", "fun", "fun", "gen", "gen", "lam", "lam", "loop", "late", "del"])
    return [k, rng.choice(names), rng.choice(names), rng.randint(0, 9)]


def render(i, s, call=False):
    k, n, m, v = s
    return {"set": "%s = %d.0" % (n, v), "glob": "def g%d():\n    global %s\n    %s = %d.0\ng%d()" % (i, n, n, v, i),
            "imp": "import math\n%s = float(math.floor(%d.5))" % (n, v), "add": "%s = %s + %d" % (n, m, v),
            "fun": "def f%d():\n    return %s + %d\n%s = f%d()" % (i, m, v, n, i), "gen": "%s = sum(q + %s for q in (%d, %d))" % (n, m, v, v),
            "lam": "%s = (lambda q: q*%s)(%d)" % (n, m, v), "loop": "%s = 0.0\nfor i in range(%d):\n    %s = %s + %s" % (n, v, n, n, m),
            "late": "def f%d():\n    return %s\n%s = %d.0\n%s = f%d()" % (i, m, m, v, n, i), "del": "del %s" % n}[k]


def text(prog):
    return "\n".join(render(i, s) for i, s in enumerate(prog)) + "\n"


def program(rng, n):
    """Random programs whose numbers stay small."""
    while True:
        prog = []
        for i in range(n):
            s = stmt(rng)
            if i < 2 and rng.random() < 0.8:
                s = [rng.choice(["set", "imp", "glob"]), s[1], s[2], s[3]]
            prog.append(s)
        ns = {}
        try:
            exec(text(prog), ns)
        except NameError:
            if rng.random() < 0.6:
                continue
        if all(abs(v) < 10 ** 6 for k, v in ns.items() if k in NAMES):
            return prog


def scenarios(rng, tier, spec):
    q = tier == "quick"
    cap = 300 if q else 3000
    for s in spec if len(spec) <= cap else rng.sample(spec, cap):
        yield dict(ev="setup", prog=s["prog"], route="file", parser=True, seed=rng.randrange(10 ** 6))
    for _ in range(250 if q else 2500):
        yield dict(ev="setup", prog=program(rng, rng.randint(0, 6)), route=rng.choice(["file", "file", "file", "dict", "both", "neither"]),
                   parser=rng.random() < 0.9, seed=rng.randrange(10 ** 6))
    for _ in range(250 if q else 2500):
        kind = rng.choice(["rel", "abs", "types", "sites", "processes"])
        n = dict(rel=3, abs=7, types=4, sites=4, processes=1)[kind]
        yield dict(ev="read", kind=kind, prog=program(rng, rng.randint(1, 6)), use=[rng.choice(NAMES[:3] if rng.random() < 0.4 else NAMES) for _ in range(n)])
    for _ in range(80 if q else 800):
        yield dict(ev="template", rxns=[gen.rtext(r, rng) for r in gen.NetGen(rng, sites=rng.choice([("s",), ("s", "t")]), liquid=True, ts=0.3, maxcoef=3).network(1, 4)],
                   seed=rng.randrange(10 ** 6))
    yield dict(ev="times", secs=[0, 1, 59.5, 59.999, 60, 3599, 3599.999, 3600, 3661.25, 7199.5, 86400, 90061.125] + [rng.uniform(0, 200000) for _ in range(60)])
    yield dict(ev="texts", seed=rng.randrange(10 ** 6), n=120 if q else 1500)
    for _ in range(40 if q else 400):
        yield dict(ev="script", what=rng.choice(["processes", "processes", "configuration", "interactions", "lattice_model"]), n=rng.randint(0, 12),
                   file=rng.choice(["", "", "a.py", "kmc_model.py"]), seed=rng.randrange(10 ** 6))


def put(name, t):
    with open(name, "w") as f:
        f.write(t)


def whole(x):
    try:
        return int(x) if float(x) == int(x) and abs(x) < BIG else BIG
    except Exception:
        return BIG


def run(s):
    return dict(setup=setup, read=read, template=template, times=times, texts=texts, script=script)[s["ev"]](s)


def setup(s):
    from scaks.models.micro_kinetic_model import MicroKineticModel
    rng = random.Random(s["seed"])
    rx = rng.sample(NET, rng.randint(1, 3))
    body = text(s["prog"])
    if rng.random() < 0.5:
        body += "rxn_expressions = %r\n" % rx
    else:
        body += "rxn_expressions = []\nfor r in %r:\n    rxn_expressions.append(r)\n" % rx
    body += "species_definitions = %r\n" % DEFS
    if s["parser"]:
        body += "parser = 'RelativeEnergyParser'\n"
    put("setup.mkm", body)
    given = dict((n, float(rng.randint(1, 9))) for n in rng.sample(NAMES, rng.randint(0, 4)))
    d = dict(given, rxn_expressions=rx, species_definitions=DEFS)
    if s["parser"]:
        d["parser"] = "RelativeEnergyParser"
    bare = s["route"] in ("dict", "both") and rng.random() < 0.15   # an empty dictionary is one
    if bare:
        d, given = {}, {}
    kw = {}
    if s["route"] in ("file", "both"):
        kw["setup_file"] = "setup.mkm"
    if s["route"] in ("dict", "both"):
        kw["setup_dict"] = d
    m, exc = drv.call(MicroKineticModel, logger_level=50, file_handler_level=50, console_handler_level=50, **kw)
    drv.quiet_handlers()
    yield dict(ev="setup", prog=s["prog"], route=s["route"], parser=s["parser"] and not bare, dict=[[k, whole(v)] for k, v in given.items()], exc=exc, wrote=rx,
               attrs=[[n, whole(getattr(m, n))] for n in ATTRS] if m else [], rxns=list(m.rxn_expressions) if m else [],
               extra=[n for n in ("x", "y", "math", "f1", "__builtins__") if m and hasattr(m, n)])


def read(s):
    k, use = s["kind"], s["use"]
    e = dict(ev="read", prog=s["prog"], use=use, mod=0, got=[])
    body, names = text(s["prog"]), "(%s,)" % ", ".join(use)
    if k in ("rel", "abs"):
        m = drv.make_model(NET, DEFS)
        sp = ener.species(NET)
        if k == "rel":
            put("energies.py", body + "dG = list(%s)\nGa = [max(g, 0.0) + 1.0 for g in dG]\n" % names)
            _, e["exc"] = drv.call(m.parser.parse_data, filename="energies.py")
            if not e["exc"]:
                e["got"] = [whole(v) for v in m.relative_energies["dG"]]
        else:
            from scaks.parsers.absolute_energy_parser import AbsoluteEnergyParser
            names7 = sorted(sp)
            e["use"] = use = (use * 9)[:len(names7)]
            put("energies.py", body + "absolute_energies = {%s}\n" % ", ".join("%r: %s" % q for q in zip(names7, use)))
            _, e["exc"] = drv.call(AbsoluteEnergyParser(m).parse_data, filename="energies.py")
            if not e["exc"]:
                e["got"] = [whole(m.absolute_energies.get(n, BIG)) for n in names7]
    else:
        q = dict(reps=[2, 1, 1], nb=2, elements=["V", "CO", "O"], empty="V", sites=["P", "Q"], basis=[[0, 0, 0], [500, 0, 0]], given={}, analysis=[],
                 cell=[[1000, 0, 0], [0, 1000, 0], [0, 0, 1000]], periodic=[True, True, False])
        m = p_c24.model(q)
        if k == "processes":
            put("in.py", body + "processes = [dict(reaction='x', n=v) for v in %s]\n" % names)
            r, e["exc"] = drv.call(m.parser.parse_processes, "in.py")
            e["got"] = [whole(d["n"]) for d in r] if not e["exc"] else []
        else:
            pool = q["elements"] if k == "types" else q["sites"]
            e["mod"] = len(pool)
            put("in.py", body + "pool = %r\n%s = [pool[int(v) %% %d] for v in %s]\n" % (pool, "types" if k == "types" else "site_types", len(pool), names))
            r, e["exc"] = drv.call(m.parser.parse_configuration if k == "types" else m.parser.construct_sitesmap, "in.py")
            e["got"] = [pool.index(t) for t in r.kw["types"]] if not e["exc"] else []
    yield e


def template(s):
    from scaks.parsers.absolute_energy_parser import AbsoluteEnergyParser
    rng = random.Random(s["seed"])
    rx = s["rxns"]
    sp = ener.species(rx)
    sp = sorted(set(sp) | {"*_" + x.split("_")[1].lstrip("0123456789") for x in sp if x[-2:] not in ("_g", "_l")})      # the sites of the adsorbates, named or not
    defs = dict((x, dict(pressure=1.0)) for x in sp if x.endswith("_g"))
    m, exc = drv.call(drv.make_model, rx, defs)
    if exc:
        yield dict(ev="no model " + exc)
        return
    named = rng.random() < 0.5
    fa, fr = ("a.py", "r.py") if named else ("abs_energy.py", "rel_energy.py")
    for f in (fa, fr):
        if os.path.exists(f):
            os.remove(f)
    e = dict(ev="abs", exc="", rxns=rx, species=list(sp), keys=[], zeros=[], rel=[], fill=[], filled=[])
    try:
        m.generate_absolute_energies_file(*([fa] if named else []))
        t = open(fa).read()
        ns = {}
        exec(t, ns)
        e["keys"] = [l.split("'")[1] for l in t.splitlines() if l.strip().startswith("'")]
        e["zeros"] = [whole(v) for v in ns["absolute_energies"].values()]
        p = AbsoluteEnergyParser(m)
        p.parse_data(*([fa] if named else []))
        e["rel"] = [whole(v * 1e6) for k in ("Gaf", "Gar", "dG") for v in m.relative_energies[k]]
        fill = [rng.randint(1, 9) for _ in e["keys"]]
        for k, v in zip(e["keys"], fill):
            t = t.replace("'%s': 0.0" % k, "'%s': %d.0" % (k, v))
        put(fa, t)
        p.parse_data(*([fa] if named else []))
        e.update(fill=fill, filled=[whole(m.absolute_energies[k]) for k in e["keys"]])
    except Exception as x:
        e["exc"] = type(x).__name__
    yield e
    e = dict(ev="rel", exc="", rxns=[x for x in rx], slots=0, comments=[], ga=[], dg=[], Ga=[], dG=[])
    try:
        m.generate_relative_energies_file(*([fr] if named else []))
        t = open(fr).read()
        e["slots"] = t.count("Ga.append()")
        e["comments"] = [l[2:] for l in t.splitlines() if l.startswith("# ")][1:]
        e["ga"] = [rng.randint(1, 9) for _ in rx]
        e["dg"] = [rng.randint(-9, 9) for _ in rx]
        for a, b in zip(e["ga"], e["dg"]):
            t = t.replace("Ga.append()", "Ga.append(%d.0)" % a, 1).replace("dG.append()", "dG.append(%d.0)" % b, 1)
        put(fr, t)
        m.parser.parse_data(*([fr] if named else []))
        r = m.relative_energies
        e.update(Ga=[whole(v) for v in r["Gaf"]], dG=[whole(v) for v in r["dG"]])
    except Exception as x:
        e["exc"] = type(x).__name__
    yield e


def times(s):
    from scaks.utilities.format_utilities import convert_time
    for x in s["secs"]:
        r, exc = drv.call(convert_time, x)
        h, m, sec = r or (0, 0, 0)
        yield dict(ev="time", exc=exc, ms=int(round(x * 1000)), h=whole(h), m=whole(m), s=int(round(min(sec, 10 ** 6) * 1000 - 1e-7)))


def value(rng, deep=2):
    k = rng.choice("iiffsslt") if deep else rng.choice("iifs")
    if k == "i":
        return rng.choice([0, 1, -3, 10 ** 12, rng.randint(-99, 99)])
    if k == "f":
        return rng.choice([0.0, 0.1, -2.5, 1e-30, 1e22, 5e-324, 2e-310, 1.7e308, -0.0, rng.random(), rng.random() * 1e-9])
    if k == "s":
        return rng.choice(["CO", "", "a b", "CO_g + *_s -> CO_s", "#x", "a, b", "[1]", "x = 2", "O_s", "O'_s", 'a"b', "back\\slash", "%s {}", " a ", "\tb", "a\nb\r", "\u00e9\u2192", "'''", "1", "None"])
    q = [value(rng, deep - 1) for _ in range(rng.randint(0, 4))]
    return q if k == "l" else tuple(q)


def texts(s):
    from scaks.utilities.format_utilities import get_list_string, get_dict_string
    rng = random.Random(s["seed"])
    for _ in range(s["n"]):
        ns = {}
        if rng.random() < 0.7:
            v = [value(rng) for _ in range(rng.choice([0, 1, 2, 4, 5, 6, 10, 11]))]
            kw = {} if rng.random() < 0.5 else dict(ncols=rng.randint(1, 7))
            arg = v if rng.random() < 0.7 else tuple(v)
            t, exc = drv.call(get_list_string, "data_1", arg, **kw)
        else:
            v = dict((rng.choice(["CO_g", "a", "x + y -> z", "0", "it's", "{}", "\\n"]) + str(i), rng.choice([1, 2.5, 0, 1e-30, 3e-312, True, None, " a", "b\n", "a", "b c", "it's", "", [1, 2], (3.0, "a"), []])) for i in range(rng.randint(0, 6)))
            t, exc = drv.call(get_dict_string, "data_1", v)
        got = ""
        if not exc:
            put("text.py", "data_1 = None\n" + t + "after = 1\n")
            try:
                exec(open("text.py").read(), ns)
                got = repr(enc(ns["data_1"])) if ns.get("after") == 1 else "no statement"
                if isinstance(v, dict) and isinstance(ns["data_1"], dict):
                    got = repr(enc(dict(sorted(ns["data_1"].items()))))
            except Exception as x:
                exc = type(x).__name__
        if isinstance(v, dict):
            v = dict(sorted(v.items()))
        yield dict(ev="text", value=repr(enc(v)), got=got, exc=exc)


def script(s):
    import KMCLib
    rng = random.Random(s["seed"])
    m = p_c24.model(dict(reps=[2, 1, 1], nb=1, elements=["V", "CO"], empty="V", sites=["P"], basis=[[0, 0, 0]], given={}, analysis=[],
                         cell=[[1000, 0, 0], [0, 1000, 0], [0, 0, 1000]], periodic=[True, True, False]))
    what = s["what"]

    class Scripted(KMCLib.KMCProcess):
        def _script(self, variable_name=what):
            return "%s = KMCProcess(**%r)\n" % (variable_name, self.kw)
    objs = [Scripted(k=i, v=rng.randint(0, 9)) for i in range(s["n"] if what == "processes" else 1)]
    e = dict(ev="script", exc="", objects=[repr(sorted(o.kw.items())) for o in objs], got=[], file=[], named=["auto_" + s["file"]] if s["file"] else [], same=True)
    for f in os.listdir("."):
        if f.startswith("auto_"):
            os.remove(f)
    try:
        args = [objs if what == "processes" else objs[0]] + ([s["file"]] if s["file"] else [])
        t = getattr(m.solver, "script_" + what)(*args)
        ns = {}
        exec(t, ns)
        e["got"] = [repr(sorted(o.kw.items())) for o in (ns[what] if what == "processes" else [ns[what]])]
        e["file"] = [f for f in os.listdir(".") if f.startswith("auto_")]
        if s["file"] and e["file"]:
            e["same"] = open(e["file"][0]).read() == t
    except Exception as x:
        e["exc"] = type(x).__name__
    yield e
