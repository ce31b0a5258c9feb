"""C16: several models in one process.  Every scenario runs in a forked child;
the answers of a model that is alone come from forked children of their own."""
import copy, json, os, sys, traceback
import drv, fakekmc
fakekmc.install()
NET = ["CO_g + *_s -> CO_s", "O2_g + 2*_s -> 2O_s", "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s"]
NET2 = ["CO_g + *_s -> CO_s", "H2_g + 2*_s -> 2H_s", "CO_s + H_s <-> CO-H_2s -> HCO_g + 2*_s"]
NET3 = ["CO_g + *_s -> CO_s", "O2_g + 2*_t -> 2O_t", "CO_s + O_t <-> CO-O_s + *_t -> CO2_g + *_s + *_t"]


def defs(p, tot=1.0, second="O2_g", prod="CO2_g", t=False):
    d = {"CO_g": {"pressure": p}, second: {"pressure": 0.5}, prod: {"pressure": 0.25},
         "*_s": {"site_name": "111", "type": "site", "total": tot}}
    if t:
        d["*_t"] = {"site_name": "211", "type": "site", "total": 0.5}
    return d


CFGS = {
    "k1": dict(rxn_expressions=NET, species_definitions=defs(1.0), temperature=450.0),
    "k2": dict(rxn_expressions=NET, species_definitions=defs(1.0), temperature=500.0),
    "k3": dict(rxn_expressions=NET, species_definitions=defs(2.0, 0.75), temperature=450.0),
    "k4": dict(rxn_expressions=NET2, species_definitions=defs(1.0, 1.0, "H2_g", "HCO_g"), temperature=450.0),
    "k5": dict(rxn_expressions=NET3, species_definitions=defs(1.0, 0.5, t=True), temperature=450.0, rootfinding="ConstrainedNewton"),
    "a1": dict(rxn_expressions=NET, species_definitions=defs(1.0), temperature=450.0, parser="AbsoluteEnergyParser"),
    "kmc": dict(rxn_expressions=NET, species_definitions=defs(1.0), temperature=450.0, solver="KMCSolver"),
    "kmc2": dict(rxn_expressions=NET, species_definitions=defs(4.0), temperature=480.0, solver="KMCSolver", unitcell_area=9e-20),
    "p6": dict(rxn_expressions=NET, species_definitions=defs(1.0), temperature=450.0, decimal_precision=6),
}
REL = {"e1": dict(Ga=[0.0, 0.1, 0.6], dG=[-0.3, -0.4, -0.2]), "e2": dict(Ga=[0.0, 0.05, 0.7], dG=[-0.25, -0.5, 0.1]),
       "e3": dict(Ga=[0.2, 0.0, 0.55], dG=[-0.3, 0.4, -0.2]),
       # neighbours of e1: only a reverse barrier, both barriers of the last step, or only a forward barrier differ
       "e4": dict(Ga=[0.0, 0.1, 0.6], dG=[-0.3, -0.5, -0.2]), "e5": dict(Ga=[0.0, 0.1, 0.65], dG=[-0.3, -0.4, -0.2]),
       "e6": dict(Ga=[0.0, 0.1, 0.75], dG=[-0.3, -0.4, -0.05])}
ABS = {"e1": {"CO_g": 0.0, "O2_g": 0.0, "CO2_g": -0.6, "CO_s": -0.3, "O_s": -0.2, "CO-O_2s": 0.1, "*_s": 0.0},
       "e2": {"CO_g": 0.0, "O2_g": 0.0, "CO2_g": -0.4, "CO_s": -0.25, "O_s": -0.25, "CO-O_2s": 0.2, "*_s": 0.0},
       "e3": {"CO_g": 0.1, "O2_g": 0.0, "CO2_g": -0.6, "CO_s": -0.3, "O_s": 0.2, "CO-O_2s": 0.3, "*_s": 0.0},
       "e4": {"CO_g": 0.1, "O2_g": 0.0, "CO2_g": -0.6, "CO_s": -0.3, "O_s": -0.2, "CO-O_2s": 0.1, "*_s": 0.0},
       "e5": {"CO_g": 0.0, "O2_g": 0.0, "CO2_g": -0.6, "CO_s": -0.3, "O_s": -0.2, "CO-O_2s": 0.15, "*_s": 0.0},
       "e6": {"CO_g": 0.0, "O2_g": 0.0, "CO2_g": -0.5, "CO_s": -0.3, "O_s": -0.2, "CO-O_2s": 0.1, "*_s": 0.0}}
CV = {"c1": ["0.25", "0.125"], "c2": ["0.5", "0.0625"]}
KINDS = ["constants", "rates", "net", "tof", "residual", "jacobian", "symrates", "symjac", "attrs", "ct", "reversibilities", "ode"]
NOOWN = ("symrates", "symjac", "attrs")


def text(x):
    import mpmath as mp
    if isinstance(x, dict):
        return "{%s}" % ",".join("%s:%s" % (k, text(x[k])) for k in sorted(x))
    if hasattr(x, "tolist"):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return "[%s]" % ",".join(text(y) for y in x)
    if isinstance(x, str) or x is None or isinstance(x, bool):
        return str(x)
    return mp.nstr(mp.mpf(x), 12)


class World(object):
    def __init__(self):
        self.m, self.cfg, self.n = {}, {}, 0

    def new(self, s, k):
        d = copy.deepcopy(CFGS[k])
        d.setdefault("parser", "RelativeEnergyParser")
        d.setdefault("solver", "SteadyStateSolver")
        d["corrector"] = "ThermodynamicCorrector"
        import scaks.models.micro_kinetic_model as a, scaks.models.kmc_model as b
        try:
            m = (b.KMCModel if k.startswith("kmc") else a.MicroKineticModel)(setup_dict=d, logger_level=50, file_handler_level=50,
                                                                             console_handler_level=50)
        finally:
            drv.quiet_handlers()
        if hasattr(m.solver, "get_data"):
            m.solver.get_data()
        self.m[s], self.cfg[s] = m, k

    def parse(self, s, e):
        m = self.m[s]
        if self.cfg[s] == "a1":
            self.n += 1
            f = "abs_%d_%d.py" % (os.getpid(), self.n)
            with open(f, "w") as o:
                o.write("absolute_energies = %r\n" % ABS[e])
            m.parser.parse_data(filename=f)
            os.remove(f)
        else:
            m.parser.parse_data(energy_data=copy.deepcopy(REL[e]))

    def badparse(self, s):
        m = self.m[s]
        if self.cfg[s] == "a1":
            raise ValueError("not for this parser")
        m.parser.parse_data(energy_data=dict(Ga=[0.1], dG=[0.2, 0.3]))

    def change(self, s, how):
        m = self.m[s]
        r = m.relative_energies
        if not r:
            return
        if how == "poke":
            r["Gaf"][0] += 0.03125
            r["Gar"][0] += 0.03125
        elif how == "last":
            r["Gar"][-1] += 0.0625
        else:
            m.corrector.correct_relative_energies(r, method=how)

    def register(self, s, a):
        from scaks.plugins.analysis import OnTheFlyAnalysis
        self.m[s].analysis_register(type(a, (OnTheFlyAnalysis,), {}))

    def applies(self, s, kind, o):
        if kind in NOOWN and o != "own":
            return False
        k = self.cfg[s]
        if k.startswith("kmc"):
            return kind in ("constants", "attrs", "ct")
        return kind != "ct"

    def eval(self, s, kind, c, o):
        import mpmath as mp
        m = self.m[s]
        sv = m.solver
        cv = tuple(mp.mpf(x) for x in CV[c])
        kw = {}
        if o != "own":
            if self.cfg[s] == "a1":
                w = World()
                w.new(1, "a1")
                w.parse(1, o)
                kw = dict(relative_energies=copy.deepcopy(w.m[1].relative_energies))
            else:
                w = given(o)
                kw = dict(relative_energies=w)
        if kind == "constants" and self.cfg[s].startswith("kmc"):
            e = kw.get("relative_energies", m.relative_energies)
            r = [sv.get_rxn_rates_TST(x, e) for x in m.rxn_expressions]
        elif kind == "ct":
            e = kw.get("relative_energies", m.relative_energies)
            r = [sv.get_rxn_rates_CT(x, e) for x in m.rxn_expressions]
        elif kind == "constants":
            r = sv.get_rate_constants(**kw)
        elif kind == "rates":
            r = sv.get_rates(cv, **kw)
        elif kind == "net":
            r = sv.get_net_rates(cv, **kw)
        elif kind == "tof":
            r = sv.get_tof(cv, **kw)
        elif kind == "residual":
            r = sv.steady_state_function(cv, **kw)
        elif kind == "jacobian":
            r = sv.analytical_jacobian(cv, **kw)
        elif kind == "reversibilities":
            r = sv.get_reversibilities(*sv.get_rates(cv, **kw))
        elif kind == "ode":
            r = sv.solve_ode(time_end=2e-13, time_span=1e-13, initial_cvgs=tuple(float(x) for x in CV[c]), **kw)
        elif kind == "symrates":
            if not sv.has_symbols:
                sv.get_data_symbols()
            r = sv.get_rates_by_sym(cv)
        elif kind == "symjac":
            if not sv.has_symbols:
                sv.get_data_symbols()
            r = sv.analytical_jacobian_by_sym(cv)
        elif kind == "attrs":
            r = [m.temperature, list(m.rxn_expressions), m.species_definitions, m.relative_energies, [type(a).__name__ for a in m.analysis]
                 if hasattr(m, "hybrid_method") else [], m.has_relative_energy, m.gas_names, m.site_names, m.adsorbate_names,
                 m.transition_state_names, type(m.solver).__name__, m.solver._owner is m, m.parser._owner is m, m.rate_algo]
        t = text(r)
        if kind != "attrs":
            spoil(r)
        spoil(kw.get("relative_energies"))
        return t


def given(o):
    ga, dg = REL[o]["Ga"], REL[o]["dG"]
    f = [d if not g and d > 0 else g for g, d in zip(ga, dg)]
    return dict(Gaf=f, Gar=[a - d for a, d in zip(f, dg)], dG=list(dg))


def spoil(r):
    """What a caller does with its own copy must not come back."""
    if isinstance(r, dict):
        for k in r:
            spoil(r[k])
    elif isinstance(r, (list, tuple)):
        for x in r:
            spoil(x)
        if isinstance(r, list) and r and not isinstance(r[0], (list, tuple, dict, str)):
            r[0] = 77.0
    elif hasattr(r, "__setitem__") and hasattr(r, "tolist"):  # matrices and arrays
        try:
            r[0] = 77.0
        except Exception:
            pass


def forked(f):
    """Result of f() in a child process."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                res = f()
            except BaseException:
                res = dict(crash=traceback.format_exc()[-1200:])
            with os.fdopen(wr, "w") as o:
                json.dump(res, o)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as i:
        t = i.read()
    os.waitpid(pid, 0)
    return json.loads(t)


def answer(w, s, kind, c, o):
    try:
        return w.eval(s, kind, c, o)
    except Exception as e:
        return "exc:" + type(e).__name__


CACHE = {}


def solo(key):
    cfg, eng, regs, kind, c = key
    k = json.dumps(key)
    if k not in CACHE:
        def f():
            w = World()
            w.new(1, cfg)
            for e in eng:
                if e in REL:
                    w.parse(1, e)
                else:
                    w.change(1, e)
            for a in regs:
                w.register(1, a)
            return answer(w, 1, kind, c if c != "-" else "c1", "own")
        CACHE[k] = forked(f)
    return CACHE[k]


def play(script):
    w, out, keys = World(), [], []
    st = {}
    for op in script:
        k, s = op[0], op[1]
        if k == "new":
            _, exc = drv.call(w.new, s, op[2])
            out.append(["new", s, op[2], exc])
            st[s] = [op[2], [], []]
            continue
        if s not in st:
            continue
        if k == "parse":
            _, exc = drv.call(w.parse, s, op[2])
            out.append(["parse", s, op[2], exc])
            st[s][1] = [op[2]]
        elif k == "badparse":
            _, exc = drv.call(w.badparse, s)
            out.append(["badparse", s, exc])
        elif k == "change":
            w.change(s, op[2])
            out.append(["change", s, op[2]])
            if st[s][1]:
                st[s][1] = st[s][1] + [op[2]]
        elif k == "register":
            if st[s][0].startswith("kmc"):
                continue
            w.register(s, op[2])
            out.append(["register", s, op[2]])
            st[s][2] = st[s][2] + [op[2]]
        else:
            kind, c, o = op[2], op[3], op[4]
            if not w.applies(s, kind, o) or (st[s][1] == [] and o == "own" and kind in ("symrates", "symjac")):
                continue
            out.append(["eval", s, kind, c, o, answer(w, s, kind, c, o)])
            g = st[s]
            keys.append([g[0], g[1], g[2], kind, "-"] if kind == "attrs" else [g[0], g[1] if o == "own" else [o], [], kind, c])
    return dict(out=out, keys=keys)


def rscript(rng, cfgs, n):
    ops, live = [["new", 1, rng.choice(cfgs)]], [1]
    for _ in range(n):
        r, s = rng.random(), rng.choice(live)
        if r < 0.12 and len(live) < 4:
            live.append(len(live) + 1)
            ops.append(["new", live[-1], rng.choice(cfgs)])
        elif r < 0.15:
            ops.append(["new", s, rng.choice(cfgs)])
        elif r < 0.35:
            ops.append(["parse", s, rng.choice(list(REL))])
        elif r < 0.38:
            ops.append(["badparse", s])
        elif r < 0.46:
            ops.append(["change", s, rng.choice(["poke", "last", "shomate", "entropy"])])
        elif r < 0.5:
            ops.append(["register", s, rng.choice("AB")])
        else:
            ops.append(["eval", s, rng.choice(KINDS), rng.choice(list(CV)), rng.choice(["own", "own", "own"] + list(REL))])
    return ops


def scenarios(rng, tier, spec):
    pairs = [s for s in spec if len(s["script"]) < 5]
    for s in rng.sample(pairs, min(len(pairs), 60 if tier == "quick" else 100000)):
        kind, cfg = rng.choice([k for k in KINDS if k not in NOOWN + ("ct",)]), rng.choice(["k1", "k3", "k5", "a1", "kmc"])
        kind = "constants" if cfg == "kmc" else kind
        yield dict(script=[[{"rates": kind, "k1": cfg}.get(x, x) if isinstance(x, str) else x for x in op] for op in s["script"]])
    short = [s for s in spec if 5 <= len(s["script"]) < 12]
    long_ = [s for s in spec if len(s["script"]) >= 12]
    a, b, c = (80, 40, 60) if tier == "quick" else (1500, 400, 900)
    for s in rng.sample(short, min(a, len(short))) + rng.sample(long_, min(b, len(long_))):
        kind = rng.choice(KINDS)
        yield dict(script=[[kind if x == "rates" and len(s["script"]) < 12 else x for x in op] for op in s["script"]])
    cfgs = [k for k in CFGS if k != "p6"]
    for _ in range(c):
        yield dict(script=rscript(rng, rng.choice([cfgs, cfgs, ["k1", "k2", "k3"], ["k1", "k4", "a1"], ["kmc", "kmc2", "k1"]]), rng.randint(8, 30)))
    yield dict(id="kf-precision", script=[["new", 1, "k1"], ["parse", 1, "e1"], ["new", 2, "p6"], ["eval", 1, "rates", "c1", "own"]])


def run(s):
    # imported before forking, but never used in this process
    import scaks.models.micro_kinetic_model, scaks.models.kmc_model, scaks.plugins.analysis  # noqa
    r = forked(lambda: play(s["script"]))
    if "crash" in r:
        yield dict(ev="crash", what=r["crash"])
        return
    seen, table = set(), []
    for k in r["keys"]:
        t = json.dumps(k)
        if t not in seen:
            seen.add(t)
            table.append([k, solo(k)])
    yield dict(ev="session", out=r["out"], solo=table, slots=4)
