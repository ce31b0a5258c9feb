"""C28: ODE integrations, with a scripted integrator and with the real one."""
import os
import gen, drv, kin, solve

FILE = "auto_ode_coverages.py"


def plain(rng):
    while True:
        g = gen.NetGen(rng, sites=rng.choice([("s",), ("s", "t")]), liquid=True, ts=0.3, maxcoef=2, catalyst=0.05)
        net = g.network(1, 3)
        ads = gen.species_of(net)[2]
        st = kin.state(rng, net, maxk=4, ds=(2, 4), pmax=2)
        if st is None or not 1 <= len(ads) <= 3 or kin.bound(net, st) > 2 ** 22:
            continue
        st.pop("theta")
        tot = dict(st["tot"])
        pts = []
        for _ in range(4):
            left, x = dict(tot), {}
            for a in gen.shuffled(rng, ads):
                k = "*_" + kin.site_of(a)
                x[a] = rng.randint(0, left[k])
                left[k] -= x[a]
            pts.append([x[a] for a in ads])
        return dict(st, rxns=[gen.rtext(r, rng) for r in net], pts=pts, seed=rng.randrange(10 ** 6),
                    kf2=[rng.randint(1, 4) for _ in net], kr2=[rng.randint(1, 4) for _ in net])


def job(rng, **kw):
    d = dict(t0=rng.choice([0, 0, 0, 3, -2, 16]), span=rng.choice([1, 1, 2, 3, 5]), k=rng.choice([1, 1, 2, 3, 4, 7, 200]), traj=rng.random() < 0.75,
             boom=rng.choice(["", "", "", "", "Boom", "KeyboardInterrupt"]), at=rng.randint(0, 6),
             init=rng.choice(["given", "given", "given", "zeros", "boltzmann"]), own=rng.random() < 0.5, pos=rng.random() < 0.2, np=rng.random() < 0.7)
    d["t1"] = d["t0"] + rng.choice([0, -1, 1, d["span"], 2 * d["span"], rng.randint(1, 40), rng.randint(1, 40)])
    if rng.random() < 0.2:     # the end just behind a step or just before it
        d["span"] = rng.choice([2000, 5000])
        d["t1"] = d["t0"] + d["span"] * rng.randint(1, 4) + rng.choice([-1, 0, 1, 1, 3])
    d.update(kw)
    return d


def jobs(rng):   # the output interval belongs to the model
    k = job(rng)["k"]
    return [job(rng, k=k) for _ in range(rng.randint(1, 3))]


def scenarios(rng, tier, spec):
    q = tier == "quick"
    cap = 300 if q else 3000
    for s in (spec if len(spec) <= cap else rng.sample(spec, cap)):
        j = s["job"]
        yield dict(plain(rng), kind="script", jobs=[job(rng, t0=j["t0"], t1=j["t1"], span=j["span"], k=j["k"], traj=j["traj"], init="given",
                                                        boom=rng.choice(["Boom", "KeyboardInterrupt"]) if s["broken"] else "", at=len(s["path"]) - 1)],
                   path=s["path"])
    for _ in range(250 if q else 3000):
        yield dict(plain(rng), kind="script", jobs=jobs(rng), path=[])
    for _ in range(40 if q else 400):
        yield decay_one(rng)
    for _ in range(12 if q else 100):
        yield dict(decay_one(rng), kind="hybrid", fresh=rng.random() < 0.3, n=rng.randint(0, 3))


def decay_one(rng):
    names = rng.sample(["CO", "NO", "O2", "N2", "H2"], rng.randint(1, 3))
    return dict(kind="decay", names=names, sites=rng.sample(["s", "t", "u", "v"], len(names)), p=[rng.randint(1, 3) for _ in names],
                kf=[rng.randint(1, 3) for _ in names], kr=[rng.randint(1, 4) for _ in names], x0=[rng.randint(0, 8) for _ in names],
                span=rng.choice([1, 2, 4]), steps=rng.randint(1, 8), algo=rng.choice(["lsoda", "vode", "lsoda", "dopri5", "dop853"]),
                rev=[rng.random() < 0.3 for _ in names])


def read(f, scale, fmt):
    if not os.path.exists(FILE):
        return dict(exists=False, times=[], cvgs=[])
    d = {}
    try:
        with open(FILE) as h:
            exec(h.read(), d)
        return dict(exists=True, times=[kin.exact(t, scale) for t in d["times"]], cvgs=[[fmt(v) for v in y] for y in d["coverages"]])
    except Exception:
        return dict(exists=True, times=[kin.BIG], cvgs=[[kin.BIG]])


def run(s):
    return dict(decay=decay, script=script, hybrid=hybrid)[s["kind"]](s)


class Boom(Exception):
    pass


def script(s):
    import mpmath as mp
    import numpy as np
    import random
    import scipy.integrate
    from scaks.solvers import steady_state_solver as sss
    rng = random.Random(s["seed"])
    D, sc = s["D"], s["D"] ** s["ord"]
    rec, cur = [], {}

    class Integrator(object):
        def __init__(self, f, jac=None):
            self.f, self.args, self.t, self.y = f, (), None, None

        def set_integrator(self, name, **kw):
            return self

        def set_f_params(self, *a):
            self.args = a
            return self

        def set_initial_value(self, y, t=0.0):
            self.y, self.t = np.array([float(v) for v in y]), t
            rec.append(dict(ev="start", y=cur["fmt"](list(y)), t=kin.exact(t, 16)))
            return self

        def successful(self):
            return True

        def integrate(self, t, step=False, relax=False):
            n = cur["n"]
            for x in [cur["x"], rng.choice(s["pts"])] if cur["x"] else [rng.choice(s["pts"])]:
                y = np.array([v / float(D) for v in x])
                if not cur["np"]:
                    y = tuple(y)
                fx, exc = drv.call(self.f, self.t, y, *self.args)
                rec.append(dict(ev="eval", x=x, fx=kin.exacts(list(fx), sc) if fx is not None else [exc]))
            if cur["boom"] and n == cur["at"]:
                rec.append(dict(ev="broke"))
                raise Boom() if cur["boom"] == "Boom" else KeyboardInterrupt()
            cur["n"] += 1
            if cur["n"] > 100:
                raise RuntimeError("too many steps")
            x = s["pts"][s["path"][cur["n"]] - 1] if cur["n"] < len(s["path"]) else rng.choice(s["pts"])
            cur["x"], self.t, self.y = x, t, np.array([v / float(D) for v in x])
            rec.append(dict(ev="step", to=kin.exact(t, 16), y=cur["fmt"](self.y)))
            return self.y

    # a model whose own energies differ from those given as argument
    m, exc = drv.call(kin.model, s["rxns"], dict(s, theta=[]), ode_output_interval=s["jobs"][0]["k"])
    if exc:
        yield dict(ev="no model " + exc)
        return
    own = dict(s, kf=s["kf2"], kr=s["kr2"])
    given = kin.energies(m, s)
    e = kin.energies(m, own)
    m.parser.parse_data(energy_data=dict(Ga=list(e["Gaf"]), dG=list(e["dG"])))
    old = [(o, o.ode) for o in (sss, scipy.integrate) if hasattr(o, "ode")]
    try:
        for o, _ in old:
            o.ode = Integrator
        for j in s["jobs"]:
            if os.path.exists(FILE):
                os.remove(FILE)
            x0 = s["pts"][s["path"][0] - 1] if s["path"] else rng.choice(s["pts"])
            cur.clear()
            cur.update(n=0, x=x0, boom=j["boom"], at=j["at"], np=j["np"], fmt=lambda y: kin.exacts(list(y), D))
            kw = dict(time_start=j["t0"] / 16.0, time_end=j["t1"] / 16.0, time_span=j["span"] / 16.0)
            if j["pos"]:
                args, kw = ["lsoda", kw["time_start"], kw["time_end"], kw["time_span"]], {}
            else:
                args = []
            if j["t0"] == 0 and not j["pos"] and rng.random() < 0.5:
                kw.pop("time_start")
            if j["traj"] or rng.random() < 0.5:
                kw["traj_output"] = j["traj"]
            init, big = x0, False
            if j["init"] == "given":
                kw["initial_cvgs"] = rng.choice([tuple, list])(rng.choice([float, mp.mpf])(v) / D for v in x0)
            else:
                if j["init"] == "boltzmann":
                    names = m.adsorbate_names + m.site_names + m.gas_names + m.liquid_names + m.transition_state_names
                    ge = {n: rng.randint(-8, 8) / 64.0 for n in names}
                    with open("abs_energy.py", "w") as h:
                        h.write("absolute_energies = %r\n" % ge)
                    from scaks.parsers.absolute_energy_parser import AbsoluteEnergyParser
                    p = AbsoluteEnergyParser(m)
                    p.parse_data("abs_energy.py")
                b, exc = drv.call(m.solver.boltzmann_coverages)
                e = kin.energies(m, own)   # reading absolute energies may have changed the relative ones
                m.parser.parse_data(energy_data=dict(Ga=list(e["Gaf"]), dG=list(e["dG"])))
                if exc:
                    x0 = init = [0] * len(m.adsorbate_names)
                    cur["x"] = x0
                else:
                    scale, big = 10 ** 8, True
                    cur["x"] = None
                    first = [True]

                    def fmt(y):
                        v = [solve.milli(q, scale if first[0] else D) for q in y]
                        first[0] = False
                        return v
                    init = [solve.milli(q, scale) for q in b]
                    cur["fmt"] = fmt
                if rng.random() < 0.3:
                    kw["initial_cvgs"] = rng.choice([None, []])
            en = s if not j["own"] else own
            if not j["own"]:
                kw["relative_energies"] = given
            rec.append(dict({k: s[k] for k in ("rxns", "tot", "p", "c", "D", "ord")}, ev="job", kf=en["kf"], kr=en["kr"], t0=j["t0"], t1=j["t1"],
                            span=j["span"], k=j["k"], traj=j["traj"], init=init, boom=j["boom"]))
            res, exc = None, ""
            try:
                res = m.solver.solve_ode(*args, **kw)
            except KeyboardInterrupt:
                exc = "KeyboardInterrupt"
            except Exception as x:
                exc = type(x).__name__
            moved = any(r["ev"] == "step" for r in rec[max(i for i, r in enumerate(rec) if r["ev"] == "job"):])
            last = lambda y: [solve.milli(q, 10 ** 8) for q in y] if big and not moved else kin.exacts(list(y), D)
            r = read(FILE, 16, lambda v: kin.exact(v, D))
            t = y = None
            if res is not None:
                t, y = res
            rec.append(dict(ev="ret", exc=exc, t=kin.exact(t, 16) if t is not None else 0, y=last(list(y)) if y is not None else [], **r))
    finally:
        for o, f in old:
            o.ode = f
    for ev in rec:
        yield ev


def langmuir(s, den=1.0):
    rx, tot = [], {}
    for n, k, r in zip(s["names"], s["sites"], s["rev"]):
        ads, des = "%s_g + *_%s" % (n, k), "%s_%s" % (n, k)
        rx.append("%s -> %s" % ((des, ads) if r else (ads, des)))
        tot["*_" + k] = 8
    st = dict(p=[[n + "_g", p] for n, p in zip(s["names"], s["p"])], c=[], tot=drv.pairs(tot), D=8, theta=[],
              kf=[(b if r else a) / den for a, b, r in zip(s["kf"], s["kr"], s["rev"])], kr=[(a if r else b) / den for a, b, r in zip(s["kf"], s["kr"], s["rev"])])
    m = kin.model(rx, st, ode_output_interval=1)
    if os.path.exists(FILE):
        os.remove(FILE)
    order = [m.adsorbate_names.index("%s_%s" % q) for q in zip(s["names"], s["sites"])]
    x0 = [0.0] * len(order)
    for i, v in zip(order, s["x0"]):
        x0[i] = v / 8.0
    return m, st, order, x0


def hybrid(s):
    """The hybrid method a model has from the start, from coverages the solver found before (or none)."""
    import scipy.optimize
    from scaks.solvers import steady_state_solver as sss
    m, st, order, x0 = langmuir(s, 64.0)
    e = kin.energies(m, st)
    m.parser.parse_data(energy_data=dict(Ga=list(e["Gaf"]), dG=list(e["dG"])))
    if not s["fresh"]:
        old = [(o, o.fsolve) for o in (sss, scipy.optimize) if hasattr(o, "fsolve")]
        try:
            for o, _ in old:
                o.fsolve = lambda *a, **k: list(x0)
            m.solver.fsolve_steady_state_cvgs(tuple(x0))
        finally:
            for o, f in old:
                o.fsolve = f
    y, exc = drv.call(m.hybrid_method, m, s["n"])
    yield dict(ev="hybrid", exc=exc, a=[k * p for k, p in zip(s["kf"], s["p"])], b=s["kr"], x0=[0] * len(x0) if s["fresh"] else s["x0"],
               y=[] if exc else [solve.milli(y[i], 10000) for i in order], file=os.path.exists(FILE))


def decay(s):
    m, st, order, x0 = langmuir(s)
    res, exc = drv.call(m.solver.solve_ode, algo=s["algo"], time_end=s["steps"] * s["span"] / 8.0, time_span=s["span"] / 8.0, initial_cvgs=x0,
                        relative_energies=kin.energies(m, st), traj_output=True)
    e = dict(ev="decay", exc=exc, steps=s["steps"], span=s["span"], a=[k * p for k, p in zip(s["kf"], s["p"])], b=s["kr"], x0=s["x0"])
    if exc:
        e.update(t=0, y=[], times=[], cvgs=[])
    else:
        q = read(FILE, 8, lambda v: solve.milli(v, 10000))
        e.update(t=kin.exact(res[0], 8), y=[solve.milli(res[1][i], 10000) for i in order], times=q["times"],
                 cvgs=[[y[i] for i in order] if len(y) == len(order) else [] for y in q["cvgs"]])
    yield e
