"""Solves with scripted root finders and hybrid methods (C14, C15)."""
import os, pickle
import gen, drv, kin


class Boom(Exception):
    pass


def slopes(net, st, x, ads):
    """Mass action of an abstract network at grid coverages; only used to choose tolerances and points."""
    D, order = st["D"], st["ord"]
    th = dict(zip(ads, x))
    p, c, tot = dict(map(tuple, st["p"])), dict(map(tuple, st["c"])), dict(map(tuple, st["tot"]))
    free = {k: v - sum(th[a] for a in ads if "*_" + kin.site_of(a) == k) for k, v in tot.items()}
    v = dict.fromkeys(ads, 0)
    for r, kf, kr in zip(net, st["kf"], st["kr"]):
        q = []
        for s, k in ((r[0], kf), (r[-1], kr)):
            so = 0
            for f in s:
                ss = gen.sstext(f)
                a = p[ss] if f[3] == "g" else c[ss] if f[3] == "l" else free[ss] if f[1] == "*" else th[ss]
                k *= a ** f[0]
                so += f[0] if f[3] not in "gl" else 0
            q.append(k * D ** (order - so))
        for a in ads:
            v[a] += (gen.coef(r[-1], a) - gen.coef(r[0], a)) * (q[0] - q[1])
    return [v[a] for a in ads], free


def setup(rng, size=3):
    """Random kinetics with points and a tolerance that splits them."""
    big = rng.random() < 0.15    # many adsorbates
    while True:
        if big:
            g = gen.NetGen(rng, sites=("s",), liquid=False, ts=0.0, maxcoef=1, catalyst=0.0)
            size = 9
        else:
            g = gen.NetGen(rng, sites=rng.choice([("s",), ("s", "t")]), liquid=True, ts=0.2, maxcoef=2, catalyst=0.05)
        net = g.network(6 if big else 1, size)
        ads, sites = gen.species_of(net)[2:]
        # totals that are no binary fractions would be rounded
        third = rng.random() < 0.5
        st = kin.state(rng, net, maxk=4, ds=(3, 6) if third else (2, 4), pmax=2, sub=not third)
        if st is None or not (6 if big else 1) <= len(ads) <= (10 if big else 4) or kin.bound(net, st) > 2 ** 22:
            continue
        D, tot = st["D"], dict(st["tot"])

        def physical():
            left, x = dict(tot), {}
            for a in gen.shuffled(rng, ads):
                k = "*_" + kin.site_of(a)
                x[a] = min(D, rng.choice([0, left[k], rng.randint(0, left[k])]))
                left[k] -= x[a]
            return [x[a] for a in ads]
        pts = [physical() for _ in range(5)]
        for _ in range(3):
            x = physical()
            i = rng.choice([rng.randrange(len(ads)), len(ads) - 1])
            x[i] = rng.choice([-1, -2, tot["*_" + kin.site_of(ads[i])] + 1, x[i] + 1])
            pts.append(x)
        pts = [x for i, x in enumerate(pts) if x not in pts[:i]]
        vs = [slopes(net, st, x, ads)[0] for x in pts]
        norms = sorted(max(map(abs, v)) for v in vs)
        if norms[-1] > 12000:
            continue
        k = rng.randrange(len(norms))
        tol = 2 * norms[k] + rng.choice([1, 1, 3])
        if rng.random() < 0.4 and len(ads) > 1:   # between the residual and the norm
            v = rng.choice(vs)
            n2 = sum(y * y for y in v) ** 0.5
            tol = int(max(map(abs, v)) + n2) // 2 * 2 + 1
        low = [2 * max(map(abs, v)) + 1 for x, v in zip(pts, vs) if min(x) < 0]
        if low and rng.random() < (0.6 if big else 0.1):    # just above the residual of an unphysical point
            tol = rng.choice(low)
        if not 0 < tol < 1900 * D ** st["ord"]:
            continue
        raw = [physical() for _ in range(3)]
        x = physical()
        x[rng.randrange(len(ads))] = rng.choice([-1, D + 1, D])
        raw.append(x)
        raw = [x for x in raw if grid(x, ads, tot, D)]
        st.pop("theta")
        st["near"] = [x for x, v in zip(pts, vs) if min(x) < 0 and 4 * sum(y * y for y in v) < tol * tol]
        st["far"] = [x for x, v in zip(pts, vs) if 2 * max(map(abs, v)) > tol]
        return dict(st, rxns=[gen.rtext(r, rng) for r in net], tol=tol), pts, raw, ads


def grid(x, ads, tot, D):
    y = {a: max(0, min(v, D, tot["*_" + kin.site_of(a)])) for a, v in zip(ads, x)}
    for k, t in tot.items():
        s = sum(v for a, v in y.items() if "*_" + kin.site_of(a) == k)
        if s > t and any(v * t % s for a, v in y.items() if "*_" + kin.site_of(a) == k):
            return False
    return True


def edge(rng, x, ads, tot):
    """A little more or less somewhere, most often at the edge of the physical coverages."""
    small = [0] * len(x)
    if rng.random() < 0.5:
        free = {k: v - sum(y for a, y in zip(ads, x) if "*_" + kin.site_of(a) == k) for k, v in tot.items()}
        for i, a in enumerate(ads):
            if x[i] == 0:
                small[i] = rng.choice([0, 0, -1, 1])
            elif free["*_" + kin.site_of(a)] == 0 or rng.random() < 0.2:
                small[i] = rng.choice([0, 0, -1, 1])
    return small


def script(rng, pts, raw, long=False, far=(), near=(), ads=(), tot=None):
    out = []
    if near and rng.random() < 0.3:      # converges to coverages without meaning
        out += [dict(k="y", x=x, lie="no") for x in rng.sample(list(far), min(len(far), rng.randint(0, 2)))]
        out.append(dict(k="y", x=rng.choice(near), lie=rng.choice(["no", "no", "lo"])))
        out += [dict(k="e", how="stop"), dict(k="h", x=rng.choice(raw))]
    if far and rng.random() < 0.12:      # an attempt with many iterates, most of them not converged
        lies = rng.choice([["no"], ["no", "lo", "lo", "hi"]])
        for _ in range(rng.randint(6, 30)):
            out.append(dict(k="y", x=rng.choice(far), lie=rng.choice(lies)))
    for _ in range(rng.randint(1, 4)):
        for _ in range(rng.randint(0, 8 if long else 4)):
            out.append(dict(k="y", x=rng.choice(pts), lie=rng.choice(["no", "no", "no", "lo", "hi"])))
        out.append(dict(k="e", how=rng.choice(["stop", "zde", "stop", "zde", "boom"])))
        out.append(dict(k="h", x=rng.choice(raw) if rng.random() < 0.9 else []))
    for o in out:
        if o["k"] == "y" and ads:
            o["small"] = edge(rng, o["x"], ads, tot)
    return out


def from_spec(spec, rng, analyses, limit):
    spec = [s for s in spec if "script" in s and bool(s["ints"]) == analyses]
    if len(spec) > limit:
        spec = rng.sample(spec, limit)
    for s in spec:
        d = {k: s[k] for k in ("rxns", "tot", "p", "c", "kf", "kr", "D", "tol", "ints", "hooks", "max", "hyb")}
        d["styles"] = [rng.choice(STYLES) for _ in s["ints"]]
        yield dict(d, archived=["steady_state_coverages", "steady_state_error", "initial_guess"], root=rng.choice(["MDNewton", "ConstrainedNewton"]),
                   solves=[dict(start=s["start"], single=s["single"], script=s["script"])], foreign=False)


def random_one(rng, analyses):
    st, pts, raw, ads = setup(rng)
    far, near = st.pop("far"), st.pop("near")
    hyb = rng.random() < 0.75
    n = rng.randint(1, 3) if analyses else 0
    solves = []
    for _ in range(rng.randint(1, 3)):
        starts = raw + [x for x in pts if grid(x, ads, dict(st["tot"]), st["D"])]
        if not starts or not raw:
            return random_one(rng, analyses)
        solves.append(dict(start=[] if hyb and rng.random() < 0.2 else [rng.choice(starts)], single=rng.random() < 0.3,
                           script=script(rng, pts, raw, rng.random() < 0.3, far, near, ads, dict(st["tot"]))))
    hooks = [WHOLE if rng.random() < 0.7 else rng.sample(WHOLE, rng.randint(1, 2)) for _ in range(n)]
    return dict(st, ints=[rng.choice([1, 1, 2, 3, 4, rng.randint(5, 12)]) for _ in range(n)], hooks=hooks, styles=[rng.choice(STYLES) for _ in range(n)], max=rng.choice([1, 2, 3, 5, 11, 100, 100]), hyb=hyb,
                archived=rng.choice([[], ["steady_state_coverages"], ["steady_state_coverages", "steady_state_error"],
                                     ["steady_state_error", "initial_guess", "steady_state_coverages", "rates"], ["initial_guess", "steady_state_coverages"]]),
                root=rng.choice(["MDNewton", "ConstrainedNewton"]), solves=solves, foreign=analyses and rng.random() < 0.5)


def milli(x, unit=1000):
    try:
        v = int(round(float(x) * unit))
        return v if abs(v) < 2 ** 29 else 2 ** 29
    except Exception:
        return 2 ** 29


def archive(m, name, D=None):
    try:
        with open(m.data_file, "rb") as f:
            d = pickle.load(f)
    except IOError:
        return None
    return d.get(name)


def vec(x, D):
    return [] if x is None else kin.exacts(list(x), D)


STYLES = ["plain", "plain", "base", "split", "mixin", "twice"]
WHOLE = ["setup", "register", "finalize"]


def make_analysis(rec, a, interval, target, hooks=WHOLE, style="plain"):
    """An analysis class with the given hooks: written out in one class, taken
    from a base class (or two) of the user, or from a plain class."""
    from scaks.plugins.analysis import OnTheFlyAnalysis

    def setup(self, model, outer_counter):
        rec(dict(ev="setup", a=a, n=outer_counter, ok=model is target()))

    def register_step(self, model, inner_counter, outer_counter):
        rec(dict(ev="register", a=a, k=inner_counter, n=outer_counter, ok=model is target(), cov=vec(model.solver.coverages, rec.D),
                 err=milli(model.solver.error)))

    def finalize(self, model, outer_counter):
        rec(dict(ev="finalize", a=a, n=outer_counter, ok=model is target()))
    every = dict(setup=setup, register=register_step, finalize=finalize)
    ms = {every[h].__name__: every[h] for h in hooks}
    iv = dict(interval=interval)
    if style == "base":
        return type("B", (type("A", (OnTheFlyAnalysis,), ms),), iv)
    if style == "split":
        last = sorted(ms)[0]
        return type("B", (type("A", (OnTheFlyAnalysis,), dict(iv, **{k: ms[k] for k in ms if k != last})),), {last: ms[last]})
    if style == "mixin":
        return type("B", (type("M", (object,), ms), OnTheFlyAnalysis), iv)
    if style == "twice":
        return type("C", (type("B", (type("A", (OnTheFlyAnalysis,), dict(ms, interval=interval)),), {}),), {})
    return type("A", (OnTheFlyAnalysis,), dict(ms, **iv))


class Recorder(list):
    def __call__(self, e):
        self.append(e)
        if len(self) > 3000:
            raise RuntimeError("too many events")


def declared(s):
    """An analysis class with an interval of some type."""
    kind, n = s["iv"]
    v = {"int": n // 2, "float": n / 2.0, "bool": n > 0, "str": str(n // 2), "none": None, "list": [n // 2]}[kind]
    _, exc = drv.call(make_analysis, Recorder(), 1, v, None, WHOLE, s["style"])
    yield dict(ev="declare", iv=s["iv"], exc=exc)


def run(s):
    if s.get("kind") == "declare":
        for e in declared(s):
            yield e
        return
    if s.get("kind") == "real":
        for e in real(s):
            yield e
        return
    import mpmath as mp
    from scaks.solvers import rootfinding_iterators as it
    if os.path.exists("data.pkl"):
        os.remove("data.pkl")
    D, rec = s["D"], Recorder()
    rec.D = D
    st = dict(s, theta=[])
    tol = s["tol"] / (2.0 * D ** s.get("ord", order(s["rxns"])))
    m, exc = drv.call(kin.model, s["rxns"], st, rootfinding=s["root"], tolerance=tol, max_rootfinding_iterations=s["max"],
                      archived_variables=list(s["archived"]))
    yield dict({k: s[k] for k in ("rxns", "tot", "p", "c", "kf", "kr", "D", "tol", "ints", "hooks", "max", "hyb", "archived")}, ev="new", exc=exc)
    if exc:
        return
    e = kin.energies(m, s)
    m.parser.parse_data(energy_data=dict(Ga=list(e["Gaf"]), dG=list(e["dG"])))
    for i, n in enumerate(s["ints"]):
        m.analysis_register(make_analysis(rec, i + 1, n, lambda: m, s["hooks"][i], s["styles"][i]))
    if s["foreign"]:
        m2 = kin.model(s["rxns"], st)
        m2.analysis_register(make_analysis(lambda ev: rec(dict(ev="foreign")), 1, 1, lambda: m2))
    pos = [0, []]

    def nxt(kind):
        todo = pos[1]
        if pos[0] < len(todo) and todo[pos[0]]["k"] == kind:
            pos[0] += 1
            return todo[pos[0] - 1]
        return None

    def point(x):
        return tuple(mp.mpf(v) / D for v in x)
    fs = {}

    def wrap(old):
        def init(self, f, x0, *a, **k):
            fs[id(self)] = f
            rec(dict(ev="construct", x=vec(x0, D)))
            return old(self, f, x0, *a, **k)
        return init

    def itr(self):
        while True:
            c = nxt("y")
            if c is None:
                break
            small = c.get("small") or [0] * len(c["x"])
            x = tuple(v + mp.mpf(d) / 10 ** 12 for v, d in zip(point(c["x"]), small))
            fx = mp.matrix(fs[id(self)](x))
            err = {"no": mp.norm(fx), "lo": mp.mpf(0), "hi": mp.mpf(10) ** (3 if s["tol"] % 3 else 40)}[c["lie"]]
            rec(dict(ev="yield", x=c["x"], small=small, lie=c["lie"], err=milli(err)))
            yield x, err, fx
        # iterates that were not asked for are dropped with the attempt
        how = (nxt("e") or dict(how="stop"))["how"]
        rec(dict(ev="end", how=how))
        if how == "zde":
            raise ZeroDivisionError("scripted")
        if how == "boom":
            raise Boom()

    def hybrid(model, n):
        while pos[0] < len(pos[1]) and pos[1][pos[0]]["k"] != "h":
            pos[0] += 1
        c = nxt("h")
        x = c["x"] if c else []
        rec(dict(ev="hybrid", n=n, ok=model is m, out=x, raised=not x))
        if not x:
            raise Boom()
        return point(x)
    m.hybrid_method = hybrid if s["hyb"] else None
    old = [(c, c.__init__, c.__iter__) for c in (it.MDNewton, it.ConstrainedNewton)]
    for c, i, _ in old:
        c.__init__, c.__iter__ = wrap(i), itr
    try:
        for q in s["solves"]:
            pos[0], pos[1] = 0, q["script"]
            rec(dict(ev="solve", start=q["start"], single=q["single"]))
            res, exc = drv.call(m.solver.get_steady_state_cvgs, point(q["start"][0]) if q["start"] else None, single_pt=q["single"],
                                **({} if s.get("own") else dict(relative_energies=e)))
            arch, ae, ig = archive(m, "steady_state_coverages"), archive(m, "steady_state_error"), archive(m, "initial_guess")
            if exc:
                rec(dict(ev="exc", name=exc, arch=vec(arch, D)))
            elif res is None:
                rec(dict(ev="ret", res=[], cov=[], arch=vec(arch, D), archerr=0, err=0))
            else:
                rec(dict(ev="ret", res=vec(res, D), cov=vec(m.solver.coverages, D), err=milli(m.solver.error), arch=vec(arch, D),
                         archerr=-1 if ae is None else milli(ae), init=vec(ig, D)))
    finally:
        for c, i, j in old:
            c.__init__, c.__iter__ = i, j
    for ev in rec:
        yield ev


def order(rxns):
    return max(sum(f[0] for f in st if f[3] not in ("g", "l")) for t in rxns for a in [kin.abstract(t)] for st in (a[0], a[-1]))


# --- real root finders ------------------------------------------------------
def real_one(rng):
    """A network at equilibrium in a known point, solved from elsewhere."""
    while True:
        st, pts, raw, ads = setup(rng, 4)
        net = [kin.abstract(t) for t in st["rxns"]]
        tot, D = dict(st["tot"]), st["D"]
        left, x = dict(tot), {}
        ok = True
        for a in gen.shuffled(rng, ads):
            k = "*_" + kin.site_of(a)
            if left[k] < 2:
                ok = False
                break
            x[a] = rng.randint(1, min(D, left[k] - 1))
            left[k] -= x[a]
        if not ok:
            continue
        p, c = dict(st["p"]), dict(st["c"])
        if not all(p.values()) or not all(left.values()):
            continue
        kf, kr = [], []
        for r in net:
            q = []
            for s in (r[0], r[-1]):
                v, so = 1, 0
                for f in s:
                    ss = gen.sstext(f)
                    a = p[ss] if f[3] == "g" else c[ss] if f[3] == "l" else left[ss] if f[1] == "*" else x[ss]
                    v *= a ** f[0]
                    so += f[0] if f[3] not in "gl" else 0
                q.append(v * D ** (st["ord"] - so))
            kf.append(q[1])
            kr.append(q[0])
        return dict({k: st[k] for k in ("rxns", "tot", "p", "c", "D", "ord")}, kind="real", kf=kf, kr=kr, root=rng.choice(["MDNewton", "MDNewton", "ConstrainedNewton"]),
                    x=[x[a] for a in ads], start=rng.choice(raw) if raw else [0] * len(ads), mode=rng.choice(["newton", "newton", "coarse"]),
                    guesses=[rng.choice(raw) if raw else [0] * len(ads) for _ in range(2)])


def real(s):
    import mpmath as mp
    from scaks.solvers import rootfinding_iterators as it
    if os.path.exists("data.pkl"):
        os.remove("data.pkl")
    st = dict(s, theta=[])
    m = kin.model(s["rxns"], st, rootfinding=s["root"], max_rootfinding_iterations=20)
    e = kin.energies(m, s)
    kf = [float(k) for k in s["kf"]]
    scale = max(kf + [float(k) for k in s["kr"]])
    kT = mp.mpf(m.kB) * mp.mpf(m.temperature)   # the largest constant becomes one
    e = dict(Gaf=[g + kT * mp.log(scale) for g in e["Gaf"]], Gar=[g + kT * mp.log(scale) for g in e["Gar"]], dG=e["dG"])
    point = lambda x: tuple(mp.mpf(v) / s["D"] for v in x)
    calls, pulls = [], []

    def hybrid(model, n):
        calls.append(n)
        return point(s["guesses"][len(calls) - 1] if len(calls) < 3 else s["x"])
    m.hybrid_method = hybrid

    def wrap(old):
        def itr(self):
            pulls.append(0)
            for y in old(self):
                pulls[-1] += 1
                yield y
        return itr
    old = [(c, c.__iter__) for c in (it.MDNewton, it.ConstrainedNewton)]
    for c, j in old:
        c.__iter__ = wrap(j)
    try:
        start = point(s["start"])
        if s["mode"] == "coarse":
            start = tuple(mp.mpf(v) for v in m.solver.coarse_steady_state_cvgs(start, relative_energies=e))
        res, exc = drv.call(m.solver.get_steady_state_cvgs, start, relative_energies=e)
    finally:
        for c, j in old:
            c.__iter__ = j
    big = lambda xs: [milli(x, 10 ** 6) for x in xs]
    found = res is not None
    res = list(res) if found else []
    d = m.solver.steady_state_function(tuple(res), e) if found else [0]
    tot = dict(map(tuple, s["tot"]))
    free = [mp.mpf(tot[k]) / s["D"] - sum(v for a, v in zip(m.adsorbate_names, res) if "*_" + kin.site_of(a) == k) for k in sorted(tot)]
    arch = archive(m, "steady_state_coverages")
    yield dict(ev="solved", exc=exc, found=found, out=big(res), cov=big(m.solver.coverages), arch=big(arch or []), max=20, pulls=pulls,
               err=milli(m.solver.error, 10 ** 12) if found else 0,
               resid=milli(max(abs(x) for x in d), 10 ** 12), tol=10000, free=[milli(f, 10 ** 9) for f in free] if found else [],
               neg=[milli(x, 10 ** 9) for x in res])
