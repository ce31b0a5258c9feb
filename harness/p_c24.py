"""C24: lattice inputs and control parameters handed to the engine."""
import os
import fakekmc
fakekmc.install()
import drv
from p_c17 import enc, dec as v17

PLUGINS = ["CoveragesAnalysis", "FrequencyAnalysis", "TOFAnalysis", "EventAnalysis"]


def canon(v):
    """Text of a value; lists and tuples are not told apart."""
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(canon(x) for x in v) + "]"
    return repr(v)


def settings(rng):
    g = {}
    opts = dict(time_limit=[5.0, 100.0, float("inf")], nstep=[0, 1, 50, 100000], trajectory_dump_interval=[1, 10, 7], random_seed=[13996, 0, 1],
                random_generator=["MT", "MINSTD", "RANLUX24", "RANLUNX48"], start_time=[0.0, 2.5, 100.0],
                extra_trajectories=[[], [1, 2], (100, 200, 3)], do_redistribution=[True, True, False], redistribution_interval=[1, 5, 1000],
                fast_species=[["O"], ["CO", "O"], ()], nsplits=[(1, 1, 1), (2, 2, 1), [3, 1, 1]],
                distributor_type=["RandomDistributor", "ProcessRandomDistributor"],
                analysis_interval=[1, 5, [1, 2], [[0, 100, 10]], [(5, 10, 2), 3], (1,), [4, (1, 100, 99)], 0])
    for k, v in opts.items():
        if rng.random() < 0.45:
            g[k] = rng.choice(v)
    if rng.random() < 0.1:
        g["analysis_interval"] = rng.choice(["1", 1.5, [1.5], [(1, 2)], [(10, 5, 1)], [(1, 5, 6)], [(1.0, 5, 1)], [["1", "5", "1"]], {1: 2}, [(1, 2, 3, 4)], [None], [[5, 4, -2]]])
    return g


def one(rng, s=None):
    nb = rng.randint(1, 3)
    elements = rng.sample(["V", "CO", "O", "O_s", "C"], rng.randint(1, 4))
    d = dict(reps=[rng.choice([1, 1, 2, 3, 4]) for _ in range(3)], nb=nb, elements=elements, empty=rng.choice(elements) if rng.random() < 0.9 else rng.choice(["V", "X", "v"]),
             sites=rng.sample(["P", "Q", "R"], rng.randint(1, 3)))
    if s:
        d.update({k: s[k] for k in ("reps", "nb", "elements", "empty", "sites")})
    nb = d["nb"]
    d["basis"] = [[0, 0, 0], [500, 0, 0], [0, 500, 0]][:nb]
    d["cell"] = rng.choice([[[1000, 0, 0], [0, 1000, 0], [0, 0, 1000]], [[3000, 0, 0], [1500, 2500, 0], [0, 0, 9000]]])
    d["periodic"] = [rng.random() < 0.6 for _ in range(3)]
    d["given"] = settings(rng)
    d["analysis"] = rng.choice([[], [], rng.sample(PLUGINS, rng.randint(1, 4))])
    d["scripting"] = rng.random() < 0.5
    d["ttype"] = rng.choice(["lattice", "xyz"])
    return d


def types(rng, pool, n, bad=0.15):
    q = [rng.choice(pool) for _ in range(n)]
    if rng.random() < bad:
        return q[1:] if rng.random() < 0.5 else q + [rng.choice(pool)]
    return q


def reads(rng, d):
    n = d["reps"][0] * d["reps"][1] * d["reps"][2] * d["nb"]
    out = []
    for _ in range(rng.randint(1, 3)):
        conf = rng.choice([[], [[]], [[types(rng, d["elements"], n, 0)]], [[types(rng, d["elements"], n, 0)]]])
        q = types(rng, d["sites"], n)
        if rng.random() < 0.15 and q:
            q[rng.randrange(len(q))] = rng.choice(["Z", "p", "PP"])
        out.append(dict(conf=conf, sites=rng.choice([[], [[]], [[q]], [[q]]])))
    return out


def scenarios(rng, tier, spec):
    q = tier == "quick"
    iv = [s["interval"] for s in spec if "interval" in s]
    spec = [s for s in spec if "interval" not in s]
    for v in rng.sample(iv, min(len(iv), 400 if q else 3000)):
        d = one(rng)
        d["given"]["analysis_interval"] = v17(v)
        yield dict(d, script=reads(rng, d)[:1], named=False, seed=rng.randrange(10 ** 6))
    cap = 400 if q else 4000
    for s in spec if len(spec) <= cap else rng.sample(spec, cap):
        yield dict(one(rng, s["s"]), script=s["script"], named=rng.random() < 0.5, seed=rng.randrange(10 ** 6))
    for _ in range(600 if q else 8000):
        d = one(rng)
        yield dict(d, script=reads(rng, d), named=rng.random() < 0.5, seed=rng.randrange(10 ** 6))


def model(s):
    from scaks.models.kmc_model import KMCModel
    d = dict(rxn_expressions=["CO_g + *_s -> CO_s"], species_definitions={"CO_g": {"pressure": 1.0}, "*_s": {"site_name": "s", "type": "site", "total": 1.0}},
             temperature=450.0, parser="KMCParser", solver="KMCSolver", corrector="ThermodynamicCorrector", unitcell_area=9e-20, active_ratio=1.0,
             rate_algo="TST", possible_element_types=s["elements"], empty_type=s["empty"], possible_site_types=s["sites"],
             basis_sites=[[x / 1000.0 for x in r] for r in s["basis"]], cell_vectors=[[x / 1000.0 for x in r] for r in s["cell"]],
             repetitions=tuple(s["reps"]), periodic=tuple(s["periodic"]), coverage_ratios=[1.0] * s["nb"])
    if s["analysis"]:
        d["analysis"] = s["analysis"]
    d.update(s["given"])
    try:
        return KMCModel(setup_dict=d, logger_level=50, file_handler_level=50, console_handler_level=50)
    finally:
        drv.quiet_handlers()


def put(name, var, file, rng):
    if os.path.exists(name):
        os.remove(name)
    if file:
        with open(name, "w") as f:
            f.write("other = 1\n" if not file[0] else "%s = %r\n" % (var, rng.choice([list, tuple])(file[0][0])))


def lattice(q):
    mil = lambda rows: [[int(round(float(x) * 1000)) for x in r] for r in rows]
    uc = q.kw["unit_cell"].kw
    return dict(reps=list(q.kw["repetitions"]), periodic=[bool(x) for x in q.kw["periodic"]], cell=mil(uc["cell_vectors"]), basis=mil(uc["basis_points"]))


NOTHING = dict(reps=[], periodic=[], cell=[], basis=[])


def got(conf, smap):
    try:
        c, q = conf.kw, smap.kw
        return dict(types=list(c["types"]), types_possible=list(c["possible_types"]), types_lattice=lattice(c["lattice"]),
                    sites=list(q["types"]), sites_possible=list(q["possible_types"]), sites_lattice=lattice(q["lattice"]))
    except Exception as x:
        return dict(types=[type(x).__name__], types_possible=[], types_lattice=NOTHING, sites=[], sites_possible=[], sites_lattice=NOTHING)


def run(s):
    import random
    import KMCLib
    rng = random.Random(s["seed"])
    m, exc = drv.call(model, s)
    iv = [enc(s["given"]["analysis_interval"])] if "analysis_interval" in s["given"] else []
    given = [[k, canon(v)] for k, v in s["given"].items()] + [["empty_type", canon(s["empty"])]]
    yield dict({k: s[k] for k in ("reps", "nb", "elements", "empty", "sites", "cell", "basis", "periodic")}, ev="kmc", given=given, interval=iv, exc=exc)
    if exc:
        return
    with open("rel_energy.py", "w") as f:
        f.write("Ga = [0.5]\ndG = [-0.5]\n")
    with open("kmc_processes.py", "w") as f:
        f.write('processes = [dict(reaction="CO_g + *_s -> CO_s", coordinates_group=[[[0.0, 0.0, 0.0]]], elements_before=["*"], elements_after=["*"], basis_sites=[0])]\n')
    ok = False
    look = lambda: [drv.call(lambda: getattr(m, k))[0] for k in ("configuration", "sitesmap", "process_dicts")]
    for r in s["script"]:
        cn, sn = ("conf_in.py", "sites_in.py") if s["named"] else ("kmc_configuration.py", "kmc_sites.py")
        put(cn, "types", r["conf"], rng)
        put(sn, "site_types", r["sites"], rng)
        before = look()
        kw = dict(configuration_file=cn, sitesmap_file=sn) if s["named"] else {}
        _, exc = drv.call(m.parser.parse_data, **kw)
        after = look()
        ok = ok or not exc
        yield dict(ev="read", conf=r["conf"], file=r["sites"], exc=exc, kept=all(a is b for a, b in zip(before, after)),
                   got=got(after[0], after[1]) if not exc else got(None, None))
    if not ok:
        return
    for f in ("auto_kmc_model.py",):
        if os.path.exists(f):
            os.remove(f)
    KMCLib.KMCLatticeModel.runs[:] = []
    _, exc = drv.call(m.run, scripting=s["scripting"], trajectory_type=s["ttype"])
    runs = KMCLib.KMCLatticeModel.runs
    e = dict(ev="go", exc=exc, runs=len(runs), control=[], got=got(None, None), tname="", tgot="", ttype=s["ttype"], analysis=[], want=s["analysis"],
             script=os.path.exists("auto_kmc_model.py"), scripting=s["scripting"])
    if runs:
        lm, kw = runs[0]
        e.update(control=[[k, canon(v)] for k, v in kw["control_parameters"].kw.items()], got=got(lm.kw.get("configuration"), lm.kw.get("sitesmap")),
                 tname=kw.get("trajectory_filename", ""), tgot=kw.get("trajectory_type", ""), analysis=[type(a).__name__ for a in kw.get("analysis") or []])
    yield e
