"""C35: the scripts of a campaign, run as an unprivileged user in a scratch directory."""
import inspect, io, json, os, random, shutil, signal, stat, sys, tempfile, traceback
os.environ["MPLBACKEND"] = "Agg"
import gen, drv, kin

U = 8192
REPO = os.environ.get("VERIF_REPO", "/repo")
TIMEOUT = 120
NOBODY = 65534
O_TYPES = ["O_s", "O_r", "O_u", "O_d", "O_l"]
RXNS = ["CO_g + *_t -> CO_t", "CO_g + *_b -> CO_b", "O2_g + 2*_b -> 2O_b", "O2_g + 2*_t -> O2_2t", "O2_2t + 2*_b <-> O-O_2t + 2*_b -> 2O_b + 2*_t",
        "O2_2t + CO_b <-> OCO-O_2t + *_b -> O_b + CO2_g + 2*_t", "CO_b + O_b <-> CO-O_2b -> CO2_g + 2*_b", "CO_b + O_b <-> OC-O_2b -> CO2_g + 2*_b",
        "O_b + *_t <-> O_t + *_b -> O_b + *_t", "CO_t + O_b <-> CO-O_t + *_b -> CO2_g + *_b + *_t", "CO2_g + *_t -> CO2_t", "CO2_t -> CO2_g + *_t",
        "CO_b + *_t <-> CO_t + *_b -> CO_b + *_t"]


# ------------------------------------------------------------------ scenarios
def value(rng, top=1024):
    return 8 * rng.choice([0, 1, top, rng.randint(0, top), rng.randint(0, top)])


def cover(rng, kind=None):
    """Types and coverages over some steps: rows of 1, 2, 4 or 8 values."""
    n = rng.choice([1, 2, 4, 8])
    if kind == "map":
        types = rng.sample(["V", "O", "X", "Y"], rng.randint(1, 3)) + ["O_s", "C"]
    elif kind == "any":
        types = rng.sample(["V", "Vac", "C", "CO", "C_t", "O", "O_s", "O_r", "X", "H"], rng.randint(1, 6))
    else:
        types = O_TYPES + ["C", "V"] + rng.sample(["X", "H", "CO"], rng.randint(0, 2))
        rng.shuffle(types)
    return dict(types=types, rows=[[value(rng, 1024) for _ in range(n)] for _ in types], steps=[100 * i for i in range(n)], times=sorted(8 * x for x in rng.sample(range(1, 10 ** 4), n)))


def rates(rng, few=4):
    n = rng.randint(max(2, (few + 1) // 2), 8)
    names = sorted(r + x for r in rng.sample(RXNS, n) for x in ("(->)", "(<-)"))
    if rng.random() < 0.2:    # a redistribution has no reverse
        names.remove(rng.choice(names))
    return dict(names=names, rates=[value(rng, 10 ** 4) * rng.choice([1, 1, -1]) for _ in names])


def template(rng):
    d = [["rxn_expressions", rng.sample(RXNS, rng.randint(1, 4))], ["temperature", rng.choice([500, 450.0, 333.25])], ["surface_name", rng.choice(["Pt-100", "", "Pt 'top'", "a\"b", "x\\n"])],
         ["cell_vectors", [[3.0, 0.0, 0.0], [0.0, 3.0, 0.0], [0.0, 0.0, 3.0]]], ["start_time", rng.choice([0.0, 1e-12, 3])], ["extra", rng.choice([True, None, [1, "two", (3,)], {"k": [0.1]}])],
         ["total", rng.choice([0.1, 1e-300, 10 ** 20])]]
    rng.shuffle(d)
    return d[:rng.randint(2, len(d))]


def stamp(rng):
    return rng.choice([rng.random(), 10.0 ** rng.randint(-20, 12) * rng.random(), 0.0, 5e-324, 1.0, 1e16, float(rng.randint(0, 9)), 0.1 + 0.2])


def lines(rng, spec=None):
    """Lines of a setup file, as [marked, text]."""
    q = []
    for m in ([x["start"] for x in spec] if spec is not None else [rng.random() < 0.25 for _ in range(rng.randint(0, 8))]):
        q.append([True, rng.choice(["start_time = 0.0", "start_time=1.5e-3", "start_time = 1 # from the run before"])] if m else
                 [False, rng.choice(["temperature = 450", "# start_time = 3.0", "", "tolerance = 1e-3  # start_time", "time_limit = 1.0", "restart_time = 2.0", "seed = 13996",
                                     "nstep = 10", "tof_start_time = 2.0"])])
    return q


def scenarios(rng, tier, spec):
    q = tier == "quick"
    cap = 60 if q else 600
    good = [s for s in spec if any(h["op"][:4] in ("extr", "draw", "cont") for h in s["hist"])]
    for s in good if len(good) <= cap else rng.sample(good, cap):
        yield dict(kind="campaign", setup=lines(rng, s["setup"]), end=rng.random() < 0.8, hist=s["hist"], seed=rng.randrange(10 ** 6))
    for _ in range(40 if q else 400):
        h = [dict(op="create", job=0, v=0)]
        njobs = rng.choice([1, 3, 5, 9])
        for _ in range(rng.randint(3, 10)):
            op = rng.choice(["run-cov", "run-rate", "run-both", "run-both", "extract-cov", "extract-rate", "draw-cov", "draw-rate", "edit", "continue", "extract-both", "draw-both"])
            for _ in range(rng.randint(1, njobs) if op.startswith("run") else 1):
                h.append(dict(op=op, job=rng.randint(1, njobs), v=rng.randint(0, 9)))
            if rng.random() < 0.06:
                h.append(dict(op="create", job=0, v=0))
        yield dict(kind="campaign", setup=lines(rng), end=rng.random() < 0.8, hist=h, seed=rng.randrange(10 ** 6))
    for _ in range(60 if q else 600):
        yield dict(kind="continue", setup=lines(rng), end=rng.random() < 0.7, times=[[stamp(rng) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 4))], seed=rng.randrange(10 ** 6))
    for _ in range(2 if q else 12):
        yield dict(kind="grid", seed=rng.randrange(10 ** 6))
    for _ in range(25 if q else 250):
        yield dict(kind="map", seed=rng.randrange(10 ** 6))
    for _ in range(120 if q else 1500):
        yield dict(kind="picture", which=rng.choice(["tof", "tof", "cov", "merged", "freq", "mkm-rate", "mkm-both", "mkm-ode"]), seed=rng.randrange(10 ** 6))
    for _ in range(30 if q else 300):
        yield dict(kind="launch", which=rng.choice(["kmc", "mkm"]), seed=rng.randrange(10 ** 6))


# ------------------------------------------------------- unprivileged children
def inside(cwd, f):
    """f() run by `nobody' in directory cwd; (its result, "") or (None, name of the exception)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(0)
            os.close(r)
            os.setpgid(0, 0)
            os.chdir(cwd)
            os.setgroups([])
            os.setresgid(NOBODY, NOBODY, NOBODY)
            os.setresuid(NOBODY, NOBODY, NOBODY)
            os.environ["HOME"] = os.environ["TMPDIR"] = os.environ["MPLCONFIGDIR"] = cwd
            null = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(null, fd)
            sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
            try:
                out = [f(), ""]
            except BaseException as e:
                out = [None, type(e).__name__]
            with os.fdopen(w, "w") as g:
                g.write(json.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r) as g:
            text = g.read()
    finally:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
    return tuple(json.loads(text)) if text else (None, "died")


def source(name):
    path = os.path.join(REPO, "scripts", name)
    with open(path, "rb") as f:
        return f.read(), path


def script(name, argv=(), before=None, after=None):
    """A function that runs a script as its own program and returns what `after' makes of it."""
    text, path = source(name)

    def go():
        import matplotlib.pyplot as plt
        plt.close("all")
        sys.argv = [path] + list(argv)
        sys.path.insert(0, os.path.dirname(path))
        state = before() if before else None
        exc = ""
        try:
            exec(compile(text, path, "exec"), {"__name__": "__main__", "__file__": path})
        except BaseException as e:
            exc = type(e).__name__
            if isinstance(e, SystemExit) and e.code in (None, 0):
                exc = ""
        return [exc, after(state) if after else None]
    return go


def execute(cwd, name, argv=(), before=None, after=None):
    """(exception, what `after' returned)."""
    out, died = inside(cwd, script(name, argv, before, after))
    return (died, None) if out is None else tuple(out)


class Scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c35_", dir="/tmp")
        os.chown(self.d, NOBODY, NOBODY)
        os.chmod(self.d, 0o755)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def put(self, name, text):
        p = os.path.join(self.d, name)
        d = os.path.dirname(p)
        if not os.path.isdir(d):
            os.makedirs(d)
            x = d
            while len(x) > len(self.d):
                os.chown(x, NOBODY, NOBODY)
                x = os.path.dirname(x)
        with open(p, "w") as f:
            f.write(text)
        os.chown(p, NOBODY, NOBODY)

    def get(self, name):
        try:
            with open(os.path.join(self.d, name), errors="replace") as f:
                return f.read()
        except OSError as e:
            return type(e).__name__

    def files(self, name):
        out, top = [], os.path.join(self.d, name)
        for r, _, fs in os.walk(top):
            out += [[os.path.relpath(os.path.join(r, f), top), self.get(os.path.join(r, f))] for f in fs]
        return sorted(out)


def num(x, unit=U):
    """A number as an integer in the unit; -7 if it is not one of them."""
    v = float(x) * unit
    return int(round(v)) if v == v and abs(v) < 2e9 and abs(v - round(v)) < 1e-6 * max(1.0, abs(v)) else -7


def label(t):
    t = str(t)
    if t.startswith("_"):
        return "-"
    for x in ("$", "\\bf", "\\theta_", "{", "}", "^"):
        t = t.replace(x, "")
    return t[:-1] if t.endswith("*") and len(t) > 1 else t


def picture(_):
    import matplotlib.pyplot as plt
    axes, bars = [], []
    for n in plt.get_fignums():
        for ax in plt.figure(n).axes:
            s = [[label(x.get_label()), [num(v) for v in x.get_xdata(orig=True)], [num(v) for v in x.get_ydata(orig=True)]] for x in ax.lines]
            for c in ax.collections:
                o = c.get_offsets().tolist()
                s.append([label(c.get_label()), [num(p[0]) for p in o], [num(p[1]) for p in o]])
            axes.append(s)
            bars += [[float(p.get_y()), num(p.get_width(), 1), [round(v, 4) for v in p.get_facecolor()]] for p in ax.patches]
    bars.sort(key=lambda b: b[0])
    colours = []
    for b in bars:
        if b[2] not in colours:
            colours.append(b[2])
    return dict(axes=axes, bars=[b[1] for b in bars], colour=[colours.index(b[2]) for b in bars])


def draw(sc, cwd, which, name, argv=(), png="", refuse=False, **data):
    if png and os.path.exists(os.path.join(cwd, png)):
        os.unlink(os.path.join(cwd, png))
    exc, out = execute(cwd, name, argv, after=picture)
    e = dict(ev="draw", which=which, exc=exc, refuse=refuse, axes=[], bars=[], colour=[], save="-s" in argv, saved=False, times=[], steps=[], rows=[], types=[], procs=[], rates=[], occ=[])
    e.update(out or {})
    e.update(data)
    if png and os.path.exists(os.path.join(cwd, png)):
        with open(os.path.join(cwd, png), "rb") as f:
            e["saved"] = f.read(4) == b"\x89PNG"
    return e


# ------------------------------------------------------------------- contents
def fl(q):
    return [fl(x) if isinstance(x, list) else x / float(U) for x in q]


def coverages_text(c):
    return "times = %r\n\nsteps = %r\n\ncoverages = %r\n\npossible_types = %r\n" % (fl(c["times"]), c["steps"], fl(c["rows"]), c["types"])


def frequency_text(rng, r, with_rates=True):
    ix = list(range(len(r["names"])))
    rng.shuffle(ix)
    d = "{%s}" % ", ".join("%r: %r" % (r["names"][i], r["rates"][i] / float(U)) for i in ix)
    o = "{%s}" % ", ".join("%r: %r" % (r["names"][i], 3) for i in ix)
    return "reaction_occurencies = %s\n\n" % o + ("reaction_rates = %s\n" % d if with_rates else "")


def job(c=None, r=None, **k):
    return dict(k, types=c["types"] if c else [], last=[row[-1] for row in c["rows"]] if c else [], rates=r["rates"] if r else [])


# --------------------------------------------------------------------- drivers
def run_continue(sc, cwd, setup_lines, end, times, rng):
    """One continuation; the setup file is there already."""
    before = read_lines(sc, cwd)
    form = rng.random() < 0.5
    text = "times = %r\n" % times if form else "times = []\nsteps = []\n" + "".join("times.append(%r)\nsteps.append(%d)\n" % (t, i) for i, t in enumerate(times))
    sc.put(os.path.join(os.path.relpath(cwd, sc.d), "auto_lattice_trajectory_old.py"), text)
    exc, _ = execute(cwd, "kmc_run/change_start_time.py")
    return dict(ev="continue", exc=exc, before=before, after=read_lines(sc, cwd), stamp=repr(times[-1]))


def read_lines(sc, cwd):
    out = []
    for x in sc.get(os.path.join(os.path.relpath(cwd, sc.d), "pt-100.mkm")).splitlines():
        if x.startswith("start_time"):
            v = x.split("=", 1)[-1].split("#")[0].strip()
            try:
                v = repr(float(v))
            except ValueError:
                pass
            out.append(dict(start=True, text=v))
        else:
            out.append(dict(start=False, text=x))
    return out


def setups(cwd, dirs, both):
    """What the setup files of the jobs mean (read by `nobody')."""
    def go():
        out = []
        for d in dirs:
            try:
                loc = {}
                with open(os.path.join(d, "pt-100.mkm"), "rb") as f:
                    exec(f.read(), {}, loc)
                sd = dict((k, dict(v)) for k, v in loc["species_definitions"].items())
                co, o2 = sd["CO_g"].pop("pressure"), sd["O2_g"].get("pressure")
                if both:
                    sd["O2_g"].pop("pressure")
                loc["species_definitions"] = sorted((k, sorted(v.items())) for k, v in sd.items())
                out.append([repr(sorted(loc.items())), type(co).__name__, repr(co), repr(o2)])
            except Exception as e:
                out.append(["unreadable " + type(e).__name__, "", "0", "0"])
        return out
    res, exc = inside(cwd, go)
    return res if res is not None else [["unreadable " + exc, "", "0", "0"]] * len(dirs)


def micro(t):
    try:
        v = float(t) * 10 ** 6
        return int(round(v)) if abs(v) < 2e9 else -7
    except ValueError:
        return -7


def write_template(sc, where, tpl, more, rng):
    sd = dict(CO_g=dict(pressure=0.5), O2_g=dict(pressure=0.25, note="x"), t=dict(site_name="top", type="site", total=1.0))
    sd["*_b"] = dict(site_name="bridge", type="site", total=0.5)
    text = "# Setup.\nspecies_definitions = %r\n" % sd + "".join("%s = %r\n" % (k, tuple(v) if 0 else v) for k, v in tpl)
    sc.put(where + "/template/pt-100.mkm", text)
    for n, t in more:
        sc.put(where + "/template/" + n, t)


def create(sc, where, kind, keep):
    """Run the script that makes the jobs in directory `where' and look at them."""
    cwd = os.path.join(sc.d, where)
    before = sc.files(where + "/template")
    sc.put(where + "/notes.txt", "mine")
    exc, _ = execute(cwd, "kmc_run/%s-run/create_jobs.py" % kind)
    listed = sc.get(where + "/job_dirs.txt").splitlines()
    dirs = [d for d in listed if os.path.isdir(os.path.join(cwd, d)) and not os.path.isabs(d) and ".." not in d]
    tp = setups(cwd, ["template"], kind == "2d")[0]
    jobs = []
    for d, (rest, typ, co, o2) in zip(dirs, setups(cwd, dirs, kind == "2d")):
        if kind == "1d":
            exact = d == co and typ == "float"
        else:
            exact = d == "pO2-%s/pCO-%s" % (o2, co) and typ == "float"
        jobs.append(dict(dir=d, co=micro(co), o2=micro(o2), exact=exact, rest=rest, files=[f for f in sc.files(where + "/" + d) if f[0] != "pt-100.mkm"]))
    kept = sc.files(where + "/template") == before and sc.get(where + "/notes.txt") == "mine" and all(sc.get(k) == "mine" for k in keep)
    return dict(ev="create", kind=kind, exc=exc, jobs=jobs, listed=listed, rest=tp[0], files=[f for f in before if f[0] != "pt-100.mkm"], kept=kept), dirs


def arrays(names):
    def go(_):
        import numpy as np
        out = {}
        with np.load(names[0]) as d:
            for n in names[1:]:
                out[n] = d[n].tolist()
        return out
    return go


def extract(cwd, kind, jobs):
    if kind == "cov":
        exc, out = execute(cwd, "kmc_plot/batch_plot/extract_cvgs.py", after=arrays(["cvgs-data.npz", "p", "CO_cvgs", "O_cvgs"]))
        got = [[num(p, 10 ** 6), [num(a), num(b)]] for p, a, b in zip(out["p"], out["CO_cvgs"], out["O_cvgs"])] if out else []
        same = out and len(out["p"]) == len(out["CO_cvgs"]) == len(out["O_cvgs"])
    else:
        exc, out = execute(cwd, "kmc_plot/batch_plot/extract_tofs.py", after=arrays(["tofs-data.npz", "p", "tofs"]))
        got = [[num(p, 10 ** 6), num(a)] for p, a in zip(out["p"], out["tofs"])] if out else []
        same = out and len(out["p"]) == len(out["tofs"])
    return dict(ev="extract", kind=kind, exc=exc, jobs=jobs, got=got if same or exc else [["lengths"]], o2=[], co=[], v=[])


def pic_axis(e):
    """Pressures of pictures are given in micro-bar, as those of the tables."""
    for s in e["axes"]:
        for x in s:
            if x[0] != "TOF" or x[1] != [0]:
                x[1] = [int(round(v)) for v in x[1]]
    return e


def pressures(_):
    """The picture with pressures in micro-bar."""
    import matplotlib.pyplot as plt
    axes = []
    for n in plt.get_fignums():
        for ax in plt.figure(n).axes:
            axes.append([[label(x.get_label()), [num(v, 10 ** 6) for v in x.get_xdata(orig=True)], [num(v) for v in x.get_ydata(orig=True)]] for x in ax.lines])
    return dict(axes=axes, bars=[], colour=[])


BATCH = {"cov": ("batch-cov", "plot_cvgs.py"), "rate": ("batch-rate", "plot_tofs.py"), "both": ("batch-both", "plot_cvgs_tof.py")}


def campaign(s, sc, rng):
    sc.put("w/pt-100.mkm", "")
    cont = os.path.join(sc.d, "c")
    sc.put("c/pt-100.mkm", "\n".join(x[1] for x in s["setup"]) + ("\n" if s["end"] and s["setup"] else ""))
    where, cwd = "w", os.path.join(sc.d, "w")
    os.unlink(cwd + "/pt-100.mkm")
    more = [[n, rng.choice(["x = 1\n", "", "#\n"])] for n in rng.sample(["rel_energy.py", "kmc_processes.py", "run.py", "sub/deep.py", "a b.txt"], rng.randint(0, 3))]
    tpl = template(rng)
    dirs, results, have, pick, versions = [], {}, {}, [], 0
    for h in s["hist"]:
        op = h["op"]
        if op == "continue":
            yield run_continue(sc, cont, None, None, [stamp(rng) for _ in range(rng.randint(1, 3))], rng)
        elif op == "edit":
            tpl = template(rng)
            versions += 1
            if rng.random() < 0.5:
                more = more + [["new%d.py" % versions, "y = %d\n" % versions]]
        elif op == "create":
            shutil.rmtree(os.path.join(cwd, "template"), ignore_errors=True)
            write_template(sc, where, tpl, more, rng)
            if rng.random() < 0.3:
                sc.put(where + "/0.05/kmc_old.py", "old")
            e, dirs = create(sc, where, "1d", [])
            results = {}
            yield e
            pick = rng.sample(range(len(dirs)), min(9, len(dirs)))
            if rng.random() < 0.3 and dirs:
                sc.put(where + "/" + dirs[0] + "/backup/old.py", "z = 1\n")
        elif op.startswith("run"):
            if not pick:
                continue
            d = dirs[pick[(h["job"] - 1) % len(pick)]]
            r = results.setdefault(d, dict(c=None, r=None))
            if op != "run-rate":
                r["c"] = cover(rng)
                sc.put(where + "/" + d + "/auto_coverages.py", coverages_text(r["c"]))
            if op != "run-cov":
                r["r"] = rates(rng)
                lost = rng.random() < 0.1
                sc.put(where + "/" + d + "/auto_frequency.py", frequency_text(rng, r["r"], not lost))
                if lost:
                    r["r"] = None
        elif op.startswith("extract"):
            for kind in ["cov", "rate"] if op == "extract-both" else [op[8:]]:
                jobs = [job(results.get(d, {}).get("c"), results.get(d, {}).get("r"), p=micro(d)) for d in dirs]
                e = extract(cwd, kind, jobs)
                have[kind] = [j["p"] for j in jobs if (j["types"] if kind == "cov" else j["rates"])]
                yield e
                if e["exc"]:
                    return
        elif op.startswith("draw"):
            kind = op[5:]
            if kind == "both":
                if not have.get("cov") or len(have["cov"]) != len(have.get("rate") or []):
                    continue
            elif not have.get(kind):
                continue
            which, name = BATCH[kind]
            exc, out = execute(cwd, "kmc_plot/batch_plot/" + name, after=pressures)
            e = dict(ev="draw", which=which, exc=exc, refuse=False, axes=[], bars=[], colour=[], save=False, saved=False, times=[], steps=[], rows=[], types=[], procs=[], rates=[], occ=[])
            e.update(out or {})
            yield e


def run_map(sc, rng, cwd=None, grid=None):
    where = "m"
    if grid is None:
        o2s, cos = [rng.sample([0.01, 1.0, 2.5, 10.0, 20.0, 0.5, 100.0, 1e-3], rng.randint(1, 4)) for _ in range(2)]
        grid = [("pO2-%r/pCO-%r" % (o, c), o, c) for o in o2s for c in cos]
    jobs = []
    for d, o, c in grid:
        a, r = cover(rng, "map"), rates(rng, 13)
        while len(r["names"]) < 13:
            r = rates(rng, 13)
        sc.put(where + "/" + d + "/auto_coverages.py", coverages_text(a))
        sc.put(where + "/" + d + "/auto_frequency.py", frequency_text(rng, r))
        jobs.append(job(a, r, o2=micro(o), co=micro(c), p=0))
    sc.put(where + "/job_dirs.txt", "")
    for kind, name, out, key in rng.sample([("map-rate", "extract_tofs.py", "tofs-data.npz", "tofs"), ("map-CO", "extract_CO_cvgs.py", "CO-cvgs-data.npz", "cvgs"), ("map-O", "extract_O_cvgs.py", "O-cvgs-data.npz", "cvgs")], 3):
        exc, got = execute(os.path.join(sc.d, where), "kmc_plot/map_plot/" + name, after=arrays([out, "pO2s", "pCOs", key]))
        e = dict(ev="extract", kind=kind, exc=exc, jobs=jobs, got=[], o2=[], co=[], v=[])
        if got:
            e.update(o2=[micro(x) for x in got["pO2s"]], co=[micro(x) for x in got["pCOs"]], v=[[num(x) for x in r] for r in got[key]])
        yield e


def pictures(s, sc, rng):
    which, cwd = s["which"], os.path.join(sc.d, "p")
    sc.put("p/x", "")
    save = ["-s"] if rng.random() < 0.3 else []
    for _ in range(rng.choice([1, 1, 2])):
        if which == "tof":
            n = rng.randint(1, 4)
            procs = [r + x for r in rng.sample(RXNS, rng.randint(1, 6)) for x in rng.sample(["(->)", "(<-)"], rng.randint(1, 2))]
            rng.shuffle(procs)
            rows = [[value(rng) for _ in procs] for _ in range(n)]
            times = sorted(8 * x for x in rng.sample(range(10 ** 4), n))
            sc.put("p/auto_tofs.py", "times = %r\n\ntofs = %r\n\nprocesses = %r\n" % (fl(times), fl(rows), procs))
            yield draw(sc, cwd, which, "kmc_plot/plot_tof.py", save, "tofs.png", times=times, rows=rows, procs=procs)
        elif which in ("cov", "merged"):
            c = cover(rng, "any")
            sc.put("p/auto_coverages.py", coverages_text(c))
            # Steps are small integers, times fractions: both in the same unit.
            yield draw(sc, cwd, which, "kmc_plot/plot_coverages.py" if which == "cov" else "kmc_plot/plot_merged_coverages.py", save if which == "cov" else [], "coverages.png",
                       times=c["times"], steps=[x * U for x in c["steps"]], types=c["types"], rows=c["rows"])
        elif which == "freq":
            names = sorted(r + x for r in rng.sample(RXNS, rng.randint(1, 7)) for x in ("(->)", "(<-)"))
            occ = [rng.choice([0, 1, rng.randint(0, 10 ** 6)]) for _ in names]
            q = list(zip(names, occ))
            rng.shuffle(q)
            sc.put("p/auto_frequency.py", "reaction_occurencies = {%s}\n" % ", ".join("%r: %d" % x for x in q))
            yield draw(sc, cwd, which, "kmc_plot/plot_frequencies.py", save, "frequencies.png", occ=occ)
        elif which == "mkm-ode":
            n, k = rng.randint(1, 5), rng.randint(2, 4)
            rows = [[8 * rng.randint(0, 300) for _ in range(k)] for _ in range(n)]
            times = sorted(8 * x for x in rng.sample(range(1, 10 ** 4), n))
            sc.put("p/auto_ode_coverages.py", "times = %r\n\ncoverages = %r\n" % (fl(times), fl(rows)))
            names = rng.choice([[], ["CO_s", "O_s", "H_s", "N_s"][:k], ["CO_s"] * rng.randint(1, 5)])
            yield draw(sc, cwd, which, "mkm_plot/plot_ode_coverages.py", names, refuse=bool(names) and len(names) != k, times=times, rows=rows)
        else:
            n = rng.randint(2, 6)
            times, rts = sorted(8 * x for x in rng.sample(range(1, 10 ** 4), n)), [value(rng, 10 ** 4) for _ in range(n)]
            rows = [[value(rng), value(rng)] for _ in range(n)]
            sc.put("p/auto_tofs.py", "pCO = %r\n\ntofs = %r\n" % (fl(times), fl(rts)))
            sc.put("p/auto_cvgs.py", "adsorbates = ['CO_s', 'O_s']\n\ncvgs = %r\n" % fl(rows))
            yield draw(sc, cwd, which, "mkm_plot/plot_TOFs.py" if which == "mkm-rate" else "mkm_plot/plot_cvgs_tof.py", times=times, rows=rows, rates=rts)


class Boom(Exception):
    pass


def launch(s, sc, rng):
    which, cwd = s["which"], os.path.join(sc.d, "l")
    names = sorted(rng.sample(["a.mkm", "pt-100.mkm", "pt-111.mkm", "z.mkm"], rng.randint(1, 3)))
    files = sorted(set(names + ["rel_energy.py"] + rng.sample(["out.log", "auto_coverages.py", "auto_tofs.py", "auto_x", "data.pkl", "my_auto_file.py", "out.log.old", "kmc_sites.py", "out.txt"], rng.randint(0, 7))))
    for f in files:
        sc.put("l/" + f, "x = 1\n")
    traj = [[value(rng) for _ in range(2)] for _ in range(rng.randint(1, 4))]
    fails = rng.choice(["", "", "", "parse", "run"])
    steps = ["parse rel_energy.py", "run"] if which == "kmc" else ["parse", "get", "ode", "run"]
    end = {"": len(steps), "parse": 0, "run": len(steps) - 1}[fails] + (1 if fails else 0)

    def before():
        import scaks.models.kmc_model as km
        import scaks.models.micro_kinetic_model as mm
        from scaks.parsers.kmc_parser import KMCParser
        mod, name = (km, "KMCModel") if which == "kmc" else (mm, "MicroKineticModel")
        got = dict(seen=[], setup="", calls=[], guess=[])

        class Part(object):
            def parse_data(self, *a, **k):
                if which == "kmc":
                    b = inspect.signature(KMCParser.parse_data).bind(self, *a, **k)
                    b.apply_defaults()
                    got["calls"].append("parse " + os.path.normpath(b.arguments["energy_file"]))
                else:
                    got["calls"].append("parse")
                if fails == "parse":
                    raise Boom()

            def get_data(self):
                got["calls"].append("get")

            def solve_ode(self, *a, **k):
                got["calls"].append("ode")
                return [tuple(fl(t)) for t in traj]

        class Model(object):
            def __init__(self, *a, **k):
                got["setup"] = os.path.basename(str(k.get("setup_file", a[0] if a else "")))
                got["seen"] = sorted(os.listdir("."))
                self.parser = self.solver = Part()

            def run(self, *a, **k):
                got["calls"].append("run")
                got["guess"] = [num(x) for x in k.get("init_cvgs") or ()]
                if fails == "run":
                    raise Boom()
        setattr(mod, name, Model)
        return got
    exc, got = execute(cwd, "kmc_run/run.py" if which == "kmc" else "mkm_run/run.py", before=before, after=lambda g: g)
    e = dict(ev="launch", exc=exc, files=files, setups=names, seen=[], setup="", calls=[], guess=[], fails="Boom" if fails else "", wanted=steps[:end],
             last=traj[-1] if which == "mkm" and fails != "parse" else [])
    e.update(got or {})
    yield e


def run(s):
    import numpy, matplotlib.pyplot, scaks.compatutil, scaks.mpicommons, scaks.parsers.rxn_parser, scaks.utilities.format_utilities
    import fakekmc
    fakekmc.install()
    import scaks.models.kmc_model, scaks.models.micro_kinetic_model
    rng = random.Random(s["seed"])
    with Scratch() as sc:
        if s["kind"] == "campaign":
            for e in campaign(s, sc, rng):
                yield e
        elif s["kind"] == "continue":
            sc.put("c/pt-100.mkm", "\n".join(x[1] for x in s["setup"]) + ("\n" if s["end"] and s["setup"] else ""))
            for t in s["times"]:
                yield run_continue(sc, os.path.join(sc.d, "c"), None, None, t, rng)
        elif s["kind"] == "grid":
            write_template(sc, "m", template(rng), [["run.py", "x\n"]], rng)
            for again in range(rng.choice([1, 2])):
                e, dirs = create(sc, "m", "2d", [])
                yield e
                if again == 0:
                    grid = []
                    for d in dirs:
                        a, b = d.split("/")
                        grid.append((d, a.split("-", 1)[1], b.split("-", 1)[1]))
                    for e in run_map(sc, rng, grid=grid):
                        yield e
        elif s["kind"] == "map":
            for e in run_map(sc, rng):
                yield e
        elif s["kind"] == "picture":
            for e in pictures(s, sc, rng):
                yield e
        else:
            for e in launch(s, sc, rng):
                yield e
