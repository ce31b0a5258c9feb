"""C31: root-finding iterations on problems given cell by cell."""
import itertools
import drv

UNIT = 16384
BIG = 2 * 10 ** 9


def unimodular(rng, n, pow2=True):
    """Rows of a triangular matrix with units on the diagonal, permuted."""
    a = [[rng.choice([1, -1, 2] if pow2 and n < 3 else [1, -1]) if i == k else (rng.choice([0, 1, -1]) if k > i else 0) for k in range(n)] for i in range(n)]
    rng.shuffle(a)
    return a


def damped(rng):
    n = rng.choice([1, 1, 2, 2, 3])
    m = rng.choice([2, 3, 4, 5]) if n == 1 else rng.choice([2, 3]) if n == 2 else 2
    top = rng.choice([2, 4, 9])
    f = [[rng.randint(-top, top) for _ in range(n)] for _ in range(m ** n)]
    if rng.random() < 0.7:   # a landscape that falls over several steps
        f.sort(key=lambda v: -sum(x * x for x in v))
    one = unimodular(rng, n)
    j = [one if rng.random() < 0.7 else unimodular(rng, n) for _ in f]
    if rng.random() < 0.15:
        z = [[0] * n for _ in range(n)]
        if n > 1 and rng.random() < 0.5:
            z[0] = [1] * n
        j[rng.randrange(len(j))] = z
    return dict(ev="damped", p=dict(m=m, f=f, j=j), x0=[rng.randint(-3, 3) * UNIT for _ in range(n)], n=rng.randint(1, 8), dps=rng.choice([15, 50, 100]))


def lined(rng):
    n = rng.choice([1, 1, 2, 3])
    a = unimodular(rng, n)
    c = rng.choice([1, 1, 2, -1])
    jac = [[c * v for v in r] for r in a]
    if rng.random() < 0.08:
        jac = [[0] * n for _ in range(n)]
    lo, hi = rng.choice([(-9, 9), (0, 2), (-1, 1), (0, 0), (1, 3)])
    r = [rng.randint(-3, 3) for _ in range(n)]
    x0 = [v + rng.choice([-3, -2, -1, 1, 2, 0]) for v in r]
    return dict(ev="lined", q=dict(a=a, jac=jac, r=r, lo=lo, hi=hi), x0=x0, n=rng.choice([1, 4, 5, 6, 7, 7]))


def deep(rng):
    """Norms at steps of 2^-k of a Newton step of 1 from 0."""
    top = rng.choice([1, 7, 10 ** 3, 10 ** 9])
    low = rng.choice([0, 1, 2, 12, 25, 33, 40])
    t = []
    for k in range(low + rng.randint(0, 4) + 1):
        t.append(top + rng.choice([0, 1, top]) if k < low else rng.choice([top, top - 1, top - 1, max(0, top - rng.randint(1, 5)), 0]))
    return dict(ev="deep", top=top, t=t, dps=rng.choice([15, 30, 100]), sgn=rng.choice([1, -1]))


def scenarios(rng, tier, spec):
    q = tier == "quick"
    cap = 500 if q else 6000
    for s in spec if len(spec) <= cap else rng.sample(spec, cap):
        yield dict(ev="damped", p=s["p"], x0=s["x"], n=s["n"] + 1, dps=rng.choice([15, 100]))
    for _ in range(800 if q else 10000):
        yield damped(rng)
    for _ in range(150 if q else 1500):
        yield lined(rng)
    for _ in range(150 if q else 2000):
        yield deep(rng)
    for k in ("J", "constraint", "norm", "mpfloat", "matrix", "Axb_solver"):
        yield dict(ev="lacking", k=k)


def units(x, scale=UNIT):
    import mpmath as mp
    out = []
    for v in x:
        w = mp.mpf(v) * scale
        out.append(int(w) if w == int(w) and abs(w) < BIG else BIG)
    return out


def near(x, scale):
    import mpmath as mp
    return [int(mp.nint(max(-BIG, min(BIG, mp.mpf(v) * scale)))) for v in x]


def take(it, n):
    out = []
    try:
        i = iter(it)
        for _ in range(n):
            try:
                out.append(next(i))
            except StopIteration:
                return out, "stop"
    except Exception as e:
        return out, type(e).__name__
    try:     # one more, to see whether it goes on
        next(i)
    except StopIteration:
        return out, "stop"
    except Exception:
        pass
    return out, "more"


def run(s):
    import mpmath as mp
    from scaks.solvers.rootfinding_iterators import MDNewton, ConstrainedNewton
    old = mp.mp.dps
    try:
        if s["ev"] == "damped":
            mp.mp.dps = s["dps"]
            p, n = s["p"], len(s["x0"])

            def cell(x):
                return sum((int(mp.floor(v)) % p["m"]) * p["m"] ** i for i, v in enumerate(x))
            f = lambda x: tuple(mp.mpf(v) for v in p["f"][cell(x)])
            J = lambda x: mp.matrix(p["j"][cell(x)])
            x0 = tuple(mp.mpf(v) / UNIT for v in s["x0"])
            got, end = take(MDNewton(f, x0, J=J, verbose=False), s["n"])
            yield dict(ev="damped", p=p, x0=s["x0"], n=s["n"], end=end, xs=[units(g[0]) for g in got], norms=[near([g[1] ** 2], 1)[0] for g in got],
                       fs=[units(g[2], 1) for g in got])
        elif s["ev"] == "deep":
            mp.mp.dps = s["dps"]

            def halvings(x):
                """k of x = 2^-k, -1 of zero, -2 of anything else."""
                x = s["sgn"] * mp.mpf(x)
                if x <= 0:
                    return -1 if x == 0 else -2
                m, e = mp.frexp(x)
                return 1 - int(e) if m == 0.5 and e <= 1 else -2

            def f(x):
                k = halvings(x[0])
                return (mp.mpf(s["top"] if k < 0 or k >= len(s["t"]) else s["t"][k]),)
            got, end = take(MDNewton(f, (mp.mpf(0),), J=lambda x: mp.matrix([[-s["sgn"] * f(x)[0]]]), verbose=False), 1)
            yield dict(ev="deep", top=s["top"], t=s["t"], end=end, k=halvings(got[0][0][0]) if got else -3, norm=near([got[0][1]], 1)[0] if got else -1)
        elif s["ev"] == "lined":
            mp.mp.dps = 150
            q, n = s["q"], len(s["x0"])
            calls = []

            def f(x):
                return tuple(sum(q["a"][i][k] * (x[k] - q["r"][k]) for k in range(n)) for i in range(n))

            def limit(x):
                return tuple(min(mp.mpf(q["hi"]), max(mp.mpf(q["lo"]), v)) for v in x)
            it = ConstrainedNewton(f, tuple(mp.mpf(v) for v in s["x0"]), J=lambda x: mp.matrix(q["jac"]), constraint=limit, norm=mp.norm, mpfloat=mp.mpf,
                                   matrix=mp.matrix, Axb_solver=mp.lu_solve)
            got, end = take(it, s["n"])
            yield dict(ev="lined", q=q, x0=s["x0"], n=s["n"], end=end, xs=[near(g[0], 10 ** 6) for g in got], norms=[near([g[1] ** 2], 1)[0] for g in got],
                       fs=[near(g[2], 10 ** 6) for g in got])
        else:
            kw = dict(J=1, constraint=1, norm=1, mpfloat=1, matrix=1, Axb_solver=1)
            kw.pop(s["k"])
            _, exc = drv.call(ConstrainedNewton, lambda x: x, (1,), **kw)
            yield dict(ev="lacking", exc=exc)
    finally:
        mp.mp.dps = old
