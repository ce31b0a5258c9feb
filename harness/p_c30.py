"""C30: ranks of a parallel run in one directory, in orders decided by the scenario."""
import io, itertools, logging, os, pickle, shutil, sys, tempfile
import ranks
ranks.install()
import fakekmc
fakekmc.install()

NET = ["CO_g + *_s -> CO_s", "O2_g + 2*_s -> 2O_s"]
TIMEOUT = 120


def setup(kind):
    d = dict(rxn_expressions=NET, temperature=450.0, species_definitions={"CO_g": {"pressure": 1.0}, "O2_g": {"pressure": 0.5}, "s": {"site_name": "111", "type": "111", "total": 1.0},
             "*_s": {"site_name": "111", "type": "111", "total": 1.0}})
    if kind == "micro":
        return dict(d, parser="RelativeEnergyParser", solver="SteadyStateSolver", ode_output_interval=1, archived_variables=["tofs", "rates", "steady_state_coverages"])
    return dict(d, parser="KMCParser")


def ops(rng, n, kind):
    q = [["new", kind]]
    for i in range(n):
        what = rng.choice(["log", "warn", "meet", "share", "gather", "new", "log"] + (["archive", "archive", "ode"] if kind == "micro" else []))
        q.append(["new", kind] if what == "new" else [what, "%s%d" % (what[0], i)])
    return q


def orders(rng, P, n):
    pick = rng.choice(["first", "last", "random", "blocks"])
    if pick == "first":
        q = list(range(P))
        rng.shuffle(q)
        return [q[0]] * 400 + q
    if pick == "last":       # everyone but one goes ahead
        q = rng.randrange(P)
        return [r for _ in range(100) for r in range(P) if r != q] or [0]
    if pick == "blocks":
        return [r for _ in range(40) for r in [rng.randrange(P)] * rng.randint(1, 12)]
    return [rng.randrange(P) for _ in range(300)]


def scenarios(rng, tier, spec):
    for s in spec if tier != "quick" else rng.sample(spec, min(len(spec), 300)):
        yield dict(P=s["P"], pre=sorted(s["pre"]), ops=[[list(o) for o in s["prog"]]] * s["P"], order=s["script"])
    for _ in range(150 if tier == "quick" else 1500):
        P = rng.choice([1, 2, 2, 3, 3, 4]) if rng.random() < 0.95 else rng.choice([8, 11, 12, 17])
        kind = rng.choice(["micro", "micro", "kmc"])
        same = ops(rng, rng.randint(1, 6), kind)
        yield dict(P=P, pre=sorted(rng.sample(["log", "data"], rng.randint(0, 2))), order=orders(rng, P, 0),
                   ops=[[[o[0], o[1]] if o[0] == "new" else [o[0], "%s_%d" % (o[1], r)] for o in same] for r in range(P)])


def work(s):
    def go(rank):
        from scaks.models.micro_kinetic_model import MicroKineticModel
        from scaks.models.kmc_model import KMCModel
        from scaks.mpicommons import mpi
        sys.stdout = sys.stderr = io.StringIO()
        logging.disable(logging.NOTSET)
        lg = logging.getLogger("model")
        lg.handlers = []
        m, shared, gathered, allowed = None, [], [], []
        for what, x in s["ops"][rank]:
            if what == "new":
                m = (MicroKineticModel if x == "micro" else KMCModel)(setup_dict=setup(x))
                allowed.append(bool(m.log_allowed))
            elif what in ("log", "warn") and not m.log_allowed:
                pass
            elif what == "log":
                m.logger.info("MARK %s", x)
            elif what == "warn":
                m.logger.warning("MARK %s", x)
            elif what == "archive":
                m.solver.archive_data("tofs", x)
            elif what == "meet":
                mpi.barrier()
            elif what == "share":
                shared.append(mpi.bcast(x))
            elif what == "gather":
                gathered.append(list(mpi.merge_seq([x])))
            elif what == "ode":
                e = dict(Gaf=[0.9 + 0.001 * rank, 1.0], Gar=[1.1, 1.2], dG=[-0.2, -0.2])
                m.solver.get_data()
                m.solver.solve_ode(time_end=0.375 + 0.125 * rank, time_span=0.125, initial_cvgs=(0.05 * rank, 0.0), relative_energies=e, traj_output=True)
        for h in lg.handlers:
            h.flush()
        return dict(died="", shared=shared, gathered=gathered, allowed=allowed, console=marks(sys.stderr.getvalue()), name="" if m is None or not hasattr(m, "data_file") else m.data_file)
    return go


def marks(text):
    q = [l.split("MARK ")[1].strip() for l in text.splitlines() if "MARK " in l]
    return [x for i, x in enumerate(q) if i == 0 or q[i - 1] != x]


def run(s):
    import scaks.models.micro_kinetic_model, scaks.models.kmc_model, scaks.solvers.steady_state_solver
    P = s["P"]
    wd = tempfile.mkdtemp(prefix="ranks_", dir=os.getcwd())
    old = os.getcwd()
    os.chdir(wd)
    try:
        for d in s["pre"]:
            os.mkdir(d)
        res = ranks.run(P, work(s), s["order"])
        logs, data, trajs, others = [], [], [], []
        for d, _, fs in os.walk("."):
            for f in sorted(fs):
                p = os.path.relpath(os.path.join(d, f), ".")
                if p.endswith(".log"):
                    logs.append([p, marks(open(p).read())])
                elif p.endswith(".pkl"):
                    with open(p, "rb") as g:
                        data.append([p, str(pickle.load(g).get("tofs"))])
                elif p.endswith(".py"):
                    ns = {}
                    exec(open(p).read(), ns)
                    trajs.append([p, [int(round(t * 8)) for t in ns["times"]]])
                else:
                    others.append(p)
        none = dict(died="stuck", shared=[], gathered=[], allowed=[], console=[], name="")
        res = [dict(none, **r) if r else none for r in res]
        yield dict(ev="ranks", P=P, pre=s["pre"], ops=s["ops"], died=[r["died"] for r in res], shared=[r["shared"] for r in res], gathered=[r["gathered"] for r in res],
                   allowed=[r["allowed"] for r in res], console=[r["console"] for r in res], names=[os.path.relpath(r["name"], ".") if r["name"] else "" for r in res],
                   logs=logs, data=data, trajs=trajs, others=others)
    finally:
        os.chdir(old)
        shutil.rmtree(wd, ignore_errors=True)
