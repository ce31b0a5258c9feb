"""C25: runs of models, with scripted hybrid methods, coarse solvers and root finders."""
import itertools, os, pickle
import numpy as np
import gen, drv, kin, solve

BADS = ["long", "short", "string", "dict", "int", "set", "gen", "empty", "list0", "zero", "emptystr", "array", "false"]


def interior(rng, ads, tot, D):
    pts = []
    for x in itertools.product(range(1, D + 1), repeat=len(ads)):
        if all(t > sum(v for a, v in zip(ads, x) if "*_" + kin.site_of(a) == k) for k, t in tot.items()):
            pts.append(list(x))
    return pts


def setup(rng):
    while True:
        g = gen.NetGen(rng, sites=rng.choice([("s",), ("s", "t")]), liquid=True, ts=0.3, maxcoef=2, catalyst=0.05)
        net = g.network(1, 3)
        gas, li, ads, sites = gen.species_of(net)
        st = kin.state(rng, net, maxk=4, ds=(2, 4), pmax=2)
        if st is None or not 1 <= len(ads) <= 3 or kin.bound(net, st) > 2 ** 22 or not all(v for _, v in st["p"]):
            continue
        st.pop("theta")
        D, tot = st["D"], dict(st["tot"])
        pts = interior(rng, ads, tot, D)
        if len(pts) < 2:
            continue
        sets = [dict(kf=st["kf"], kr=st["kr"])] + [dict(kf=[rng.randint(1, 4) for _ in net], kr=[rng.randint(1, 4) for _ in net]) for _ in range(2)]
        rows = []
        for q in sets:
            vs = [solve.slopes(net, dict(st, **q), x, ads)[0] for x in pts]
            rows.append([(max(map(abs, v)), sum(y * y for y in v) ** 0.5) for v in vs])
        if max(m for r in rows for m, _ in r) > 9000:
            continue
        # every set of energies needs a point that is converged, if possible one that is not
        lo = max(min(n for _, n in r) for r in rows)
        tol = 2 * int(lo) + rng.choice([3, 3, 5, 2 * int(lo) + 3])
        if not any(2 * m > tol for r in rows for m, _ in r):
            continue
        targets = [rng.choice([x for x, (_, n) in zip(pts, r) if 2 * n < tol - 0.01]) for r in rows]
        return dict(st, rxns=[gen.rtext(r, rng) for r in net], tol=tol, sets=sets, targets=targets,
                    pts=[rng.choice(pts) for _ in range(3)], gas=rng.choice(gas) if gas else "")


def conf(rng, script, names):
    s = setup(rng)
    return dict(s, script=script, names=names, seed=rng.randrange(10 ** 6), root=rng.choice(["MDNewton", "ConstrainedNewton"]))


def random_script(rng):
    ops = []
    for _ in range(rng.randint(1, 6)):
        k = rng.choice(["run"] * 6 + ["restart", "plant", "own"])
        if k == "run":
            bad = rng.random() < 0.12
            ops.append(dict(op="run", r=dict(init=[rng.randint(1, 3)] if rng.random() < 0.4 or bad else [], bad=bad, en=rng.choice(["own", "b", "c"]),
                                             fs=rng.random() < 0.25, coarse=rng.random() < 0.5, xrc=rng.random() < 0.3)))
        elif k == "plant":
            ops.append(dict(op="plant", k=rng.choice(["none", "other", "short", "good"])))
        else:
            ops.append(dict(op=k))
    return ops


def scenarios(rng, tier, spec):
    q = tier == "quick"
    spec = [s for s in spec if any(o["op"] == "run" for o in s["script"])]
    spec = rng.sample(spec, min(len(spec), 400 if q else 4000))
    for s in spec:
        yield conf(rng, s["script"], s["names"])
    all_names = ["steady_state_coverages", "steady_state_error", "initial_guess", "rates", "net_rates", "tofs", "reversibilities"]
    for _ in range(300 if q else 4000):
        yield conf(rng, random_script(rng), [n for n in all_names if rng.random() < 0.4] if rng.random() < 0.7 else ["steady_state_coverages"])


def digest(name, v, s):
    D, sc = s["D"], s["D"] ** s["ord"]
    try:
        if name in ("steady_state_coverages", "initial_guess"):
            return kin.exacts(list(v), D)
        if name == "steady_state_error":
            return unit(v, sc)
        if name == "rates":
            return [kin.exacts(list(v[0]), sc), kin.exacts(list(v[1]), sc)]
        if name in ("net_rates", "tofs"):
            return kin.exacts(list(v), sc)
        if name == "reversibilities":
            return [solve.milli(x, 10000) for x in v]
    except Exception:
        pass
    return [kin.BIG]


def unit(v, sc):
    try:
        return int(round(float(v * sc)))
    except Exception:
        return kin.BIG


def read(s):
    if not os.path.exists("data.pkl"):
        return False, [], b""
    with open("data.pkl", "rb") as f:
        raw = f.read()
    d = pickle.loads(raw)
    return True, [[k, digest(k, v, s)] for k, v in sorted(d.items())], raw


def run(s):
    import mpmath as mp
    import scipy.optimize
    from scaks.solvers import rootfinding_iterators as it, steady_state_solver as sss
    import random
    rng = random.Random(s["seed"])
    if os.path.exists("data.pkl"):
        os.remove("data.pkl")
    D, sc = s["D"], s["D"] ** s["ord"]
    tol = s["tol"] / (2.0 * sc)
    calls, cur = [], {}
    pick = lambda: rng.choice(s["pts"])
    point = lambda x: tuple(mp.mpf(v) / D for v in x)
    flt = lambda x: [float(v) / D for v in x]
    own = [0]

    def make():
        m, exc = drv.call(kin.model, s["rxns"], dict(s, theta=[]), rootfinding=s["root"], tolerance=tol, archived_variables=list(s["names"]))
        if exc:
            return None, exc
        setown(m)

        def hybrid(model, n):
            x = pick()
            calls.append(dict(k="hybrid", x=[], out=x, fx=[], ok=model is m and n == 0))
            return flt(x) if rng.random() < 0.5 else point(x)
        how = rng.choice(["register", "set", "default"])   # the method a model has from the start integrates, too
        if how == "register":
            m.hybrid_method_register(hybrid)
        elif how == "set":
            m.hybrid_method = hybrid

        def ode(*a, **k):
            x = pick()
            calls.append(dict(k="any" if how == "default" else "ode", x=[], out=x, fx=[], ok=True))
            return 100.0, flt(x)
        m.solver.solve_ode = ode
        return m, ""

    def setown(m):
        e = kin.energies(m, s["sets"][own[0]])
        m.parser.parse_data(energy_data=dict(Ga=list(e["Gaf"]), dG=list(e["dG"])))

    def fsolve(func, x0, args=(), fprime=None, *a, **k):
        x = pick()
        args = args if isinstance(args, tuple) else (args,)
        fx = func(list(x0), *args)
        calls.append(dict(k="fsolve", x=kin.exacts(list(x0), D), out=x, fx=kin.exacts(list(fx), sc), ok=True))
        return flt(x)
    fs = {}

    def wrap(old):
        def init(self, f, x0, *a, **k):
            fs[id(self)] = f
            x = s["targets"][cur["set"]]
            calls.append(dict(k="newton", x=kin.exacts(list(x0), D), out=x, fx=[], ok=True))
            return old(self, f, x0, *a, **k)
        return init

    def itr(self):
        x = point(s["targets"][cur["set"]])
        fx = mp.matrix(fs[id(self)](x))
        yield x, mp.norm(fx), fx
    old = [(c, c.__init__, c.__iter__) for c in (it.MDNewton, it.ConstrainedNewton)]
    of = [(o, getattr(o, "fsolve")) for o in (sss, scipy.optimize) if hasattr(o, "fsolve")]
    out = []
    try:
        for c, i, _ in old:
            c.__init__, c.__iter__ = wrap(i), itr
        for o, _ in of:
            o.fsolve = fsolve
        m, exc = make()
        out.append(dict(ev="fresh", exc=exc))
        for op in s["script"] if m is not None else []:
            if op["op"] == "restart":
                m, exc = make()
                out.append(dict(ev="fresh", exc=exc))
                if exc:
                    break
            elif op["op"] == "own":
                own[0] = (own[0] + 1) % 3
                setown(m)
            elif op["op"] == "plant":
                if op["k"] == "none":
                    if os.path.exists("data.pkl"):
                        os.remove("data.pkl")
                else:
                    n = len(m.adsorbate_names)
                    d = {"other": {"rates": ([], [])}, "short": {"steady_state_coverages": tuple([0.25] * (n + rng.choice([-1, 1])))},
                         "good": {"steady_state_coverages": point(pick()), "tofs": []}}[op["k"]]
                    with open("data.pkl", "wb") as f:
                        pickle.dump(d, f)
                out.append(dict(ev="fresh", exc=""))
            else:
                out.append(one(s, m, op["r"], cur, own, calls, rng, point, flt, sc))
    finally:
        for c, i, j in old:
            c.__init__, c.__iter__ = i, j
        for o, f in of:
            o.fsolve = f
    for e in out:
        yield e


def results(m):
    return [drv.call(lambda n=n: getattr(m, n)) for n in ("steady_state_coverages", "TOFs", "reversibilities", "error")]


def one(s, m, r, cur, own, calls, rng, point, flt, sc):
    D, n = s["D"], len(m.adsorbate_names)
    xrc = r["xrc"] and bool(s["gas"])
    k = own[0] if r["en"] == "own" else {"b": 1, "c": 2}[r["en"]]
    cur["set"] = k
    arg = {}
    init = [s["pts"][i - 1] for i in r["init"]]
    if r["bad"]:
        x = flt(init[0])
        arg["init_cvgs"] = {"long": x + [0.25], "short": x[1:] or x * 2, "string": "a" * n, "dict": {i: v for i, v in enumerate(x)}, "int": 3,
                            "set": {i for i in range(n)}, "gen": iter(x), "empty": (), "list0": [],
                            "zero": 0, "emptystr": "", "array": np.array(x), "false": False}[rng.choice(BADS)]
    elif init:
        arg["init_cvgs"] = rng.choice([flt(init[0]), tuple(flt(init[0])), point(init[0])])
    elif rng.random() < 0.3:
        arg["init_cvgs"] = None
    e = kin.energies(m, s["sets"][k])
    if r["en"] != "own":
        arg["relative_energies"] = e
    if r["fs"]:
        arg["fsolve"] = True
    if not r["coarse"] or rng.random() < 0.3:
        arg["coarse_guess"] = r["coarse"]
    if xrc:
        arg.update(XRC=True, product_name=s["gas"], epsilon=1e-12)
    ex, file0, raw0 = read(s)
    before = results(m)
    del calls[:]
    _, exc = drv.call(m.run, **arg)
    got = list(calls)
    ex1, file1, raw1 = read(s)
    after = results(m)
    rec = dict({k_: s[k_] for k_ in ("rxns", "tot", "p", "c", "D", "ord", "tol", "names")}, ev="run", kf=s["sets"][k]["kf"], kr=s["sets"][k]["kr"],
               run=dict(r, xrc=xrc, init=init), exists=ex, file0=file0, file1=file1, calls=got, exc=exc, untouched=raw0 == raw1 and ex == ex1,
               same=repr(before) == repr(after) and raw0 == raw1, cov=[], tofs=[], rev=[], err=0, info=True)
    if not exc:
        vals = [v for v, _ in after]
        try:
            rec.update(cov=kin.exacts(list(vals[0]), D), tofs=kin.exacts(list(vals[1]), sc), rev=[solve.milli(x, 10000) for x in vals[2]], err=unit(vals[3], sc))
        except Exception as x:
            rec["exc"] = "results " + type(x).__name__
            return rec
        i, _ = drv.call(lambda: m.model_info)
        rec["info"] = bool(i) and [list(i["steady_state_coverages"]), list(i["TOFs"]), list(i["reversibilities"])] == [
            [float(x) for x in vals[0]], [float(x) for x in vals[1]], list(vals[2])]
    return rec
