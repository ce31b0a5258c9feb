"""C20 and C21: the analysis plugins, fed with histories of a simulation."""
import contextlib, os, re, sys, random, shutil, subprocess, tempfile
import fakekmc, ranks
fakekmc.install()
ranks.install()
import drv
import p_c19
from p_c19 import S, L, F, I, B

KINDS = ["cov", "freq", "tof", "evt"]
SCALE = 10 ** 6          # coverages
Q = 10 ** 5              # rates
CAP = 2 * 10 ** 9
UNIT = [1.0]
CELLS = [1]
NAMES = ["CO", "O", "O_s", "C", "H2O", "V", "*v", "OH"]


def processes(rng, rxns, n):
    """Process definitions giving n slow processes or a few more."""
    out = []
    while True:
        pts = rng.choice([1, 2])
        d = dict(reaction=S(rng.choice(rxns)), coordinates_group=L([p_c19.coords(rng, pts) for _ in range(rng.choice([1, 1, 2]))]),
                 elements_before=L([S("*")] * pts), elements_after=L([S("*")] * pts), basis_sites=L([I(i) for i in range(rng.choice([1, 1, 2]))]),
                 fast=B(rng.random() < 0.2), redist=B(rng.random() < 0.2))
        out.append(d)
        slow = [x for x in out if not x["fast"]["n"]]
        if sum((1 if x["redist"]["n"] else 2) * len(x["coordinates_group"]["v"]) * len(x["basis_sites"]["v"]) for x in slow) >= n:
            return [list(map(list, d.items())) for d in out]


def nslow(defs):
    ds = [dict(d) for d in defs]
    return sum((1 if x["redist"]["n"] else 2) * len(x["coordinates_group"]["v"]) * len(x["basis_sites"]["v"]) for x in ds if not x["fast"]["n"])


def ratios(rng, n):
    if rng.random() < 0.3:
        return [rng.choice([1, 2, 4, 8, 16]) for _ in range(n)]
    cut = sorted(rng.randint(0, 16) for _ in range(n - 1))
    return [b - a for a, b in zip([0] + cut, cut + [16])]


def lattice(rng):
    reps = [rng.choice([1, 1, 2, 3, 4]), rng.choice([1, 2, 3]), 1]
    nb = rng.choice([1, 2, 3, rng.randint(4, 6)])
    names = rng.sample(NAMES, rng.randint(2, 6))
    k = rng.randint(1, len(names))
    return dict(reps=reps, nb=nb, ratios=ratios(rng, nb), possible=names[:k], empty=rng.choice(names[:k]), names=names)


def types(rng, d):
    n = d["reps"][0] * d["reps"][1] * d["reps"][2] * d["nb"]
    if rng.random() < 0.3:
        return [rng.choice(d["names"])] * n
    return [rng.choice(d["names"]) for _ in range(n)]


def history(rng, d, n, length, start):
    step, t, out = 0, start, []
    every = rng.choice([1, 1, 1, 2, 5, 0])
    rates = [rng.choice([0, 1, 2, 5, 17, 99]) for _ in range(n)]
    dead = rng.random() < 0.1
    for i in range(length):
        gap = every or rng.randint(1, 9)
        step += gap
        t += sum(rng.choice([1, 1, 2, 8, 80, 400]) for _ in range(min(gap, 3)))
        avail = [rng.choice([0, 0, 1, 2, 3, 9]) for _ in range(n)]
        if not any(a * r for a, r in zip(avail, rates)) and not (dead and i == length - 1):
            rates[0], avail[0] = max(rates[0], 1), max(avail[0], 1)
        if dead and i == length - 1:
            avail = [0] * n
        out.append(dict(step=step, t=t, types=types(rng, d), avail=avail, rates=list(rates), picked=rng.randrange(n)))
    return out


def finish(rng, d, recs, start, defs, n):
    steps = [r["step"] for r in recs]
    return dict(d, recs=recs, start=start, defs=defs, tof_start=rng.choice([0, 0, rng.choice(steps + [1]), (steps or [1])[-1] + 1, rng.randint(0, 40)]),
                interval=rng.choice([8, 80, 1, 400, 4000]), seed=rng.randrange(10 ** 6), early=rng.random() < 0.3,
                P=rng.choice([1, 1, 1, 2, 3]), pow=rng.choice([0, 0, 0, 0, -45, -30, -10, 12]))


def scenarios(rng, tier, spec):
    q = tier == "quick"
    cap = 150 if q else 1500
    for s in spec if len(spec) <= cap else rng.sample(spec, cap):
        b = p_c19.base(rng)
        defs = processes(rng, b["rxns"], 6)
        n = nslow(defs)
        recs = [dict(r, avail=r["avail"] + [0] * (n - 6), rates=r["rates"] + [0] * (n - 6)) for r in s["recs"]]
        d = dict(reps=[2, 1, 1], nb=2, ratios=s["ratios"], possible=s["possible"], empty=s["empty"], names=s["possible"] + ["X"])
        yield dict(b, **dict(finish(rng, d, recs, s["start"], defs, n), ev="kmc", size=s["size"], interval=s["interval"], first=["A", "V", "V", "V"]))
    for _ in range(300 if q else 4000):
        b = p_c19.base(rng)
        defs = processes(rng, b["rxns"], rng.randint(1, 8))
        n = nslow(defs)
        d = lattice(rng)
        start = rng.choice([0, 0, 8, 20, 800])
        recs = history(rng, d, n, rng.choice([0, 1, 2, 3, 5, 8, 12, 20]), start)
        size = rng.choice([1, 2, 3, 4, 5, max(1, len(recs)), len(recs) + 1, len(recs) + 2, 0])
        yield dict(b, **dict(finish(rng, d, recs, start, defs, n), ev="kmc", size=size, first=types(rng, d)))
    for length in ([49, 50, 51, 52, 499, 500, 501] if q else [49, 50, 51, 52, 100, 101, 499, 500, 501, 999, 1000, 1001, 1203]):
        b = p_c19.base(rng)
        defs = processes(rng, b["rxns"], 4)
        n = nslow(defs)
        d = dict(lattice(rng), reps=[1, 2, 1])
        s = finish(rng, d, history(rng, d, n, length, 0), 0, defs, n)
        yield dict(b, **dict(s, ev="kmc", size=0, first=types(rng, d), interval=rng.choice([1, 3])))
    for length in ([20] if q else [20, 60, 120]):      # many processes
        b = p_c19.base(rng)
        defs = processes(rng, b["rxns"], 130)
        n = nslow(defs)
        d = dict(lattice(rng), reps=[1, 2, 1])
        yield dict(b, **dict(finish(rng, d, history(rng, d, n, length, 0), 0, defs, n), ev="kmc", size=0, first=types(rng, d)))
    for _ in range(2):
        yield dict(ev="collect", cases=[dict(lattice(rng)) for _ in range(200 if q else 3000)], seed=rng.randrange(10 ** 6))


class Interactions(object):
    def __init__(self, r):
        self.r = r

    def pickedIndex(self):
        return self.r["picked"]

    def processAvailableSites(self):
        return list(self.r["avail"])

    def processRates(self):
        return [float(x) for x in self.r["rates"]]


class Configuration(object):
    def __init__(self, types):
        self._types = tuple(types)

    def types(self):
        return list(self._types)


def cap(x):
    x = float(x)
    return int(round(max(-CAP, min(CAP, x)))) if x == x else -CAP


def read(name):
    ns = {}
    with open(name) as f:
        exec(compile(f.read(), name, "exec"), ns)
    return ns


def off(rows, cells):
    """How far coverages are from the shares a lattice can have, in 10^-9 of the least one."""
    worst = 0.0
    for q in rows:
        for c in q:
            v = float(c) * 16 * cells
            worst = max(worst, abs(v - round(v))) if v == v and abs(v) < 1e9 else 1.0
    return cap(worst * 1e9)


def covfile(name):
    d = read(name)
    return dict(times=[cap(float(t) / UNIT[0] * 1024) for t in d["times"]], exact=all(isinstance(s, int) for s in d["steps"]), steps=[cap(s) for s in d["steps"]],
                cvgs=[[cap(c * SCALE) for c in q] for q in d["coverages"]], off=off(d["coverages"], CELLS[0]), types=list(d["possible_types"]))


def toffile(name):
    d = read(name)
    return dict(times=[cap(float(t) / UNIT[0] * 1024) for t in d["times"]], tofs=[[cap(x * Q * UNIT[0]) for x in q] for q in d["tofs"]], labels=list(d["processes"]))


def freqfile(name):
    d = read(name)
    return dict(proc=[cap(x) for x in d["process_occurencies"]], all=sorted([k, cap(v)] for k, v in d["reaction_occurencies"].items()),
                steady=sorted([k, cap(v)] for k, v in d["steady_reaction_occurencies"].items()),
                rates=sorted([k, cap(v * Q * UNIT[0])] for k, v in d["reaction_rates"].items()))


def rows(block):
    out = []
    for line in block.splitlines():
        if line.startswith("|"):
            out.append([c[1:].rstrip() for c in line.strip().strip("|").split("|")])
    return out[1:]


def evtfile(name):
    with open(name) as f:
        text = f.read()
    parts = re.split(r"^Step: ", text, flags=re.M)
    head = [[cap(r[0]), r[1]] for r in rows(parts[0])]
    out = []
    for p in parts[1:]:
        e = dict(step=cap(p.split()[0]), sites=cap(re.search(r"sites number: (\S+)", p).group(1)), at=cap(re.search(r"picked in step (\d+)", p).group(1)),
                 picked=[], labels=[], avail=[], rate=[], prob=[])
        for r in rows(p):
            m = re.match(r"\s*(-> )?\((\d+)\) (.*)$", r[0])
            if m.group(1):
                e["picked"].append(int(m.group(2)))
            e["labels"].append([int(m.group(2)), m.group(3)])
            e["avail"].append(cap(r[1]))
            e["rate"].append(cap(r[2]))
            e["prob"].append(cap(float(r[3].rstrip("%")) * 100))
        out.append(e)
    return dict(head=head, events=out)


NONE = dict(cov=dict(times=[], exact=False, steps=[], cvgs=[], off=0, types=[]), tof=dict(times=[], tofs=[], labels=[]),
            freq=dict(proc=[], all=[], steady=[], rates=[]), evt=dict(head=[], events=[]))
READ = dict(cov=covfile, tof=toffile, freq=freqfile, evt=evtfile)
FILES = dict(cov="auto_coverages.py", freq="auto_frequency.py", tof="auto_tofs.py", evt="auto_events.txt")


def plugins(m, s, rng):
    """The plugins SCAKS hands to the engine, or their like with a small buffer."""
    import KMCLib
    KMCLib.KMCLatticeModel.runs[:] = []
    m.run(scripting=False)
    handed = KMCLib.KMCLatticeModel.runs[0][1]["analysis"]
    if not s["size"]:
        return dict(zip(KINDS, handed)), FILES
    from scaks.solvers import kmc_plugins as K
    f = dict(cov="c.py", freq="f.py", tof="t.py", evt="e.txt")
    return dict(cov=K.CoveragesAnalysis(m, filename=f["cov"], buffer_size=s["size"]), freq=K.FrequencyAnalysis(m, filename=f["freq"]),
                tof=K.TOFAnalysis(m, filename=f["tof"], buffer_size=s["size"]), evt=K.EventAnalysis(m, filename=f["evt"], buffer_size=s["size"])), f


@contextlib.contextmanager
def rank(r, size):
    ranks.COMM.rank, ranks.COMM.size = r, size
    try:
        yield
    finally:
        ranks.COMM.rank, ranks.COMM.size = 0, 1


def play(s, kinds):
    rng = random.Random(s["seed"])
    UNIT[0] = U = 2.0 ** s["pow"]     # of time, in seconds
    CELLS[0] = s["reps"][0] * s["reps"][1] * s["reps"][2]
    for f in list(FILES.values()) + ["c.py", "f.py", "t.py", "e.txt"]:
        if os.path.exists(f):
            os.remove(f)
    big = len(s["recs"]) > 40
    default = dict(cov=500, freq=1, tof=500, evt=50)
    sizes = {k: s["size"] or default[k] for k in KINDS}
    m, exc = drv.call(p_c19.model, dict(s, elements=s["possible"]), empty_type=s["empty"], repetitions=tuple(s["reps"]),
                      basis_sites=[[0.125 * i, 0.0, 0.0] for i in range(s["nb"])], coverage_ratios=[r / 16.0 for r in s["ratios"]],
                      analysis=["CoveragesAnalysis", "FrequencyAnalysis", "TOFAnalysis", "EventAnalysis"], tof_start=s["tof_start"],
                      tof_interval=s["interval"] / 8.0 * U, start_time=s["start"] / 8.0 * U)
    head = {k: s[k] for k in ("reps", "nb", "ratios", "possible", "empty", "start", "first", "recs", "tof_start", "interval")}
    if exc:
        yield dict(head, ev="kmc", exc=exc, labels=[], nproc=0, sizes=sizes)
        return
    p_c19.energy_file(s)
    p_c19.write("procs.py", "processes = %r\n" % [dict((k, p_c19.dec(v)) for k, v in d) for d in s["defs"]])
    _, exc = drv.call(m.parser.parse_data, processes_file="procs.py")
    ps, files, e2 = [], None, ""
    for r in range(s["P"] if not exc else 0):   # plugins of every process
        with rank(r, s["P"]):
            q, e2 = drv.call(plugins, m, s, rng)
            if e2:
                break
            ps.append(q[0])
            files = q[1]
    exc = exc or e2
    yield dict(head, ev="kmc", exc=exc, labels=list(m.process_mapping) if not exc else [], nproc=len(m.processes) if not exc else 0, sizes=sizes)
    if exc:
        return
    bad = {}

    def seen(k, n, end):
        got, e = drv.call(READ[k], files[k])
        return dict(ev=k, n=n, end=end, exc=e, got=got if not e else NONE[k])

    def do(f):   # the engine keeps the processes in step, whoever comes first
        for k in kinds:
            for r in rng.sample(range(s["P"]), s["P"]):
                if k not in bad:
                    with rank(r, s["P"]):
                        _, e = drv.call(f, ps[r][k])
                    if e:
                        bad[k] = e

    do(lambda p: p.setup(0, s["start"] / 8.0 * U, Configuration(s["first"]), None))
    looks = set(rng.sample(range(len(s["recs"]) + 1), min(len(s["recs"]) + 1, 1 if big else 2))) if s["early"] else set()
    for i, r in enumerate([None] + s["recs"]):
        if r:
            do(lambda p: p.registerStep(r["step"], r["t"] / 8.0 * U, Configuration(r["types"]), Interactions(r)))
        if i in looks:
            for k in kinds:
                if k not in bad and k != "freq":
                    yield seen(k, i, False)
    do(lambda p: p.finalize())
    for k in kinds:
        yield seen(k, len(s["recs"]), True) if k not in bad else dict(ev=k, n=len(s["recs"]), end=True, exc=bad[k], got=NONE[k])


def backend():
    """The C++ function, built from the working tree, as a Python module."""
    import sysconfig
    d = tempfile.mkdtemp(prefix="cpp")
    try:
        src = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "c++")
        lib = os.path.join(sysconfig.get_config_var("LIBDIR") or "", sysconfig.get_config_var("LDLIBRARY") or "")
        if not os.path.exists(lib):
            lib = "/usr/lib/x86_64-linux-gnu/libpython%d.%d.so" % sys.version_info[:2]
        q = dict(stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=50)
        subprocess.check_call(["cmake", "-Wno-dev", "-DPYINCLUDE=" + sysconfig.get_path("include"), "-DPYLIB=" + lib, "-S", src, "-B", d], **q)
        subprocess.check_call(["make", "-C", d], **q)
        sys.path.insert(0, os.path.join(d, "wrap"))
        import kmc_functions
        return kmc_functions.collect_coverages
    finally:
        shutil.rmtree(d, ignore_errors=True)


def collect(s):
    rng = random.Random(s["seed"])
    from scaks.solvers.kmc_plugins.kmc_functions import collect_coverages as py
    built, e = drv.call(backend)
    cs = []
    for d in s["cases"]:
        t = types(rng, d)
        seq = rng.choice([list, tuple])
        x, e1 = drv.call(py, seq(t), d["possible"], [r / 16.0 for r in d["ratios"]])
        y, e2 = drv.call(built, seq(t), d["possible"], [r / 16.0 for r in d["ratios"]]) if not e else ([], e)
        cells = len(t) // len(d["ratios"])
        cs.append(dict(off=[off([x or []], cells), off([y or []], cells)], types=t, possible=d["possible"], ratios=d["ratios"], exc=[e1, e2],
                       py=[cap(c * SCALE) for c in x] if not e1 else [], cpp=[cap(c * SCALE) for c in y] if not e2 else []))
    yield dict(ev="collect", cases=cs)


def run(s, kinds=("cov",)):
    return collect(s) if s["ev"] == "collect" else play(s, kinds)
