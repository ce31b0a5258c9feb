"""Mean-field kinetics with exactly representable inputs: coverages num/D,
integer pressures, concentrations and rate constants."""
import gen, drv

BIG = 1073741831  # stands for a value that is not the expected kind of integer
T = 450.0


def state(rng, net, maxk=3, ds=(2, 4), pmax=3, sub=True, bounded=True):
    """Random exact kinetic state of an abstract network, None if too large."""
    g, li, ads, sites = gen.species_of(net)
    order = max(sum(f[0] for f in st if f[3] not in ("g", "l")) for r in net for st in (r[0], r[-1]))
    ds = [d for d in ds if d ** order <= 4096] or [2]
    D = rng.choice(ds)
    if D ** order > 4096:
        return None
    tot = {"*_" + k: rng.choice([D, D, D, D // 2, 2 * D] if sub else [D]) for k in sites}
    left = dict(tot)
    theta = {}
    for a in gen.shuffled(rng, ads):
        k = "*_" + site_of(a)
        v = rng.randint(0, left[k]) if rng.random() < 0.8 else 0
        left[k] -= v
        theta[a] = v
    st = dict(theta=drv.pairs(theta), tot=drv.pairs(tot),
              p=drv.pairs({x: rng.randint(0 if rng.random() < 0.1 else 1, pmax) for x in g}),
              c=drv.pairs({x: rng.randint(1, pmax) for x in li}),
              kf=[rng.randint(1, maxk) for _ in net], kr=[rng.randint(1, maxk) for _ in net],
              D=D, ord=order)
    if bounded and bound(net, st) > 2 ** 29:
        return None
    return st


def site_of(ss):
    import re
    return re.match(r"\d*([a-zA-Z]+)$", ss.split("_")[1]).group(1)


def bound(net, st):
    """Upper bound of everything the specification computes for this state."""
    D, order = st["D"], st["ord"]
    p, c, tot = dict(st["p"]), dict(st["c"]), dict(st["tot"])
    b = 0
    for r, kf, kr in zip(net, st["kf"], st["kr"]):
        for s, k in ((r[0], kf), (r[-1], kr)):
            x, so, mc = k, 0, 1
            for f in s:
                mc += f[0]
                ss = gen.sstext(f)
                if f[3] == "g":
                    x *= max(1, p[ss]) ** f[0]
                elif f[3] == "l":
                    x *= max(1, c[ss]) ** f[0]
                else:
                    x *= tot["*_" + f[3]] ** f[0]
                    so += f[0]
            b += x * D ** (order - so + 1) * mc * mc
    return 4 * b


def abstract(text):
    """Abstract form of an expression written by the specification."""
    import re
    out = []
    for st in re.split(r"<?->", text.replace(" ", "")):
        fs = []
        for f in st.split("+"):
            m = re.match(r"(\d*)(\*|[A-Za-z0-9-]+)_(\d*)([a-zA-Z]+)$", f)
            n = m.group(1)
            fs.append([int(n or 1), m.group(2), int(m.group(3) or 1), m.group(4)])
        out.append(fs)
    return out


def defs(st):
    d = {}
    for k, v in st["p"]:
        d[k] = {"pressure": float(v)}
    for k, v in st["c"]:
        d[k] = {"concentration": float(v)}
    for k, v in st["tot"]:
        d[k] = {"site_name": k[2:], "type": k[2:], "total": v / st["D"]}
    return d


def model(rxns, st, **kw):
    kw.setdefault("solver", "SteadyStateSolver")
    m = drv.make_model(list(rxns), defs(st), temperature=T, **kw)
    m.solver.get_data()
    return m


def energies(m, st, num=1):
    """Relative energies that give the integer rate constants exactly."""
    import mpmath as mp
    kT = mp.mpf(m.kB) * mp.mpf(T)
    pre = kT / mp.mpf(m.h)
    ga = lambda n: -kT * (mp.log(mp.mpf(n) / pre) + st.get("sh", 0) * mp.log(2))
    f, r = [ga(k) for k in st["kf"]], [ga(k) for k in st["kr"]]
    return dict(Gaf=f, Gar=r, dG=[x - y for x, y in zip(f, r)])


def cvgs(m, st, cls=None):
    import mpmath as mp
    th = dict(st["theta"])
    return tuple((cls or mp.mpf)(th[a]) / st["D"] for a in m.adsorbate_names)


def exact(x, scale):
    """x*scale as integer, BIG if it is not one."""
    try:
        v = x * scale
        n = int(round(float(v)))
        if abs(v - n) < 1e-10 * max(1, abs(n), scale) and abs(n) < 2 ** 30:
            return n
    except Exception:
        pass
    return BIG


def close(x, scale, near):
    """x*scale as integer, BIG if it is farther than near from one."""
    v = x * scale
    n = int(round(float(v)))
    return n if abs(v - n) < min(near, 0.4) and abs(n) < 2 ** 30 else BIG


def unshift(xs, s):
    """Rates without the power of two all their rate constants carry."""
    import mpmath as mp
    try:
        return [mp.ldexp(mp.mpf(x), -s.get("sh", 0)) for x in xs]
    except Exception:
        return [None for _ in xs]


def exacts(xs, scale):
    return [exact(x, scale) for x in xs]


def networks(rng, n, spec, **kw):
    """Scenarios: specification states first, then random ones."""
    for s in spec:
        yield {k: s[k] for k in ("rxns", "theta", "tot", "p", "c", "kf", "kr", "D", "ord")}
    done = 0
    opts = dict(maxk=kw.pop("maxk", 3))
    while done < n:
        g = gen.NetGen(rng, sites=kw.get("sites") or rng.choice(gen.SITES),
                       liquid=True, ts=0.4, maxcoef=kw.get("maxcoef", 3), bident=kw.get("bident", False))
        big = done % 30 == 7 and kw.get("big", True)   # indices of two digits
        keep = kw.get("filter") or (lambda n: True)
        net = [r for r in g.network(12, 20) if keep([r])][:13] if big else g.network(1, kw.get("size", 4))
        extra = {}
        if kw.get("big", True) and done % 30 in (17, 18):     # an adsorbate of many reactions
            net = hub(rng, keep)
        elif kw.get("big", True) and not kw.get("maxcoef") and done % 30 in (23, 24, 25):   # high orders
            net = steep(rng, keep)
            extra = dict(ds=(2,), pmax=rng.choice([1, 3]))
        if kw.get("filter") and not kw["filter"](net):
            continue
        st = state(rng, net, **dict(opts, **extra))
        if st is None or not gen.species_of(net)[2] or (big and len(net) < 11):
            continue
        st["rxns"] = [gen.rtext(r, rng) for r in net]
        if kw.get("shift") and rng.random() < 0.3:     # very slow or very fast altogether
            st["sh"] = rng.choice([-100, -60, -45, -30, 20, 60])
        if kw.get("loose", True) and rng.random() < 0.2:
            unphysical(rng, st)
        done += 1
        yield st


def hub(rng, keep):
    """Between six and nine reactions that change the coverage of one adsorbate."""
    g = gen.NetGen(rng, sites=("s", "t"), ts=0.2, maxcoef=2, catalyst=0)
    x = gen.sstext(gen.fm(1, g.el[0], "s"))
    out = {}
    size = rng.randint(6, 9)
    for _ in range(600):
        r = g.step()
        n = sum(f[0] * k for st, k in ((r[0], 1), (r[-1], -1)) for f in st if gen.sstext(f) == x)
        if n and keep([r]):
            out.setdefault(gen.rtext(r, None), r)
        if len(out) == size:
            break
    return list(out.values()) or g.network(1, 2)


def steep(rng, keep):
    """One reaction with a coefficient of four up to twelve, maybe another one."""
    g = gen.NetGen(rng, sites=("s", "t"), maxcoef=12, ts=0.3, repeat=0.1, catalyst=0)
    while True:
        r = g.step()
        if max(f[0] for st in r for f in st) > 3 and keep([r]):
            return [r] + (g.network(1, 1) if rng.random() < 0.3 else [])


def unphysical(rng, st):
    """Coverages that exceed their site's total by up to this total, or lie below zero."""
    th, tot = dict(map(tuple, st["theta"])), dict(map(tuple, st["tot"]))
    for k, t in sorted(tot.items()):
        on = [a for a in sorted(th) if "*_" + site_of(a) == k]
        if not on or t < 1:
            continue
        a = rng.choice(on)
        others = sum(v for b, v in th.items() if b in on and b != a)
        if rng.random() < 0.4:
            if others >= 1:
                th[a] = -rng.randint(1, min(others, t))
        else:
            room = min(t, 2 * t - others)
            th[a] = rng.randint(max(1, min(room, t - others)), max(1, room))
    st["theta"] = drv.pairs(th)
