"""Seeded generator of elementary reaction networks (abstract form + text).

A formula is [stoich, species, nsite, site]; a state a list of formulas; a
reaction a list of 2 or 3 states.  Everything is conserved by construction
unless `break_rxn` is applied."""
import re

SITES = [("s",), ("s", "t"), ("s", "ss"), ("ab", "b"), ("s", "t"), ("Pt", "p"), ("terrace", "stepedges"), ("s", "S", "t")]
ELEMS = ["C", "O", "H", "N", "S", "Cl", "Co", "B", "F"]


def fm(n, sp, site, ns=1):
    return [n, sp, ns, site]


def mol(*parts):
    """Species name from (element, count) parts."""
    return "".join(e + (str(c) if c != 1 else "") for e, c in parts)


def ftext(f, rng=None):
    n, sp, ns, site = f
    return "%s%s_%s%s" % (n if n != 1 else "", sp, ns if ns != 1 else "", site)


def stext(st, rng=None):
    if rng is None:
        return " + ".join(ftext(f) for f in st)
    sep = rng.choice([" + ", " + ", "+", "  +  ", " +", "+ "])
    return sep.join(ftext(f) for f in st)


def rtext(rxn, rng=None):
    def arrow(a):
        if rng is None:
            return " %s " % a
        return rng.choice([" %s ", " %s ", "%s", "  %s  ", " %s", "%s "]) % a
    if len(rxn) == 2:
        a = "->" if rng is None else rng.choice(["->", "->", "<->"])
        t = stext(rxn[0], rng) + arrow(a) + stext(rxn[1], rng)
    else:
        a1 = "<->" if rng is None else rng.choice(["<->", "<->", "->"])
        t = stext(rxn[0], rng) + arrow(a1) + stext(rxn[1], rng) + arrow("->") + stext(rxn[2], rng)
    if rng is not None and rng.random() < 0.15:
        t = " " + t + " "
    return t


def coef(st, ss):
    return sum(f[0] for f in st if ss == sstext(f))


def sstext(f):
    return "%s_%s%s" % (f[1], f[2] if f[2] != 1 else "", f[3])


def elems(sp):
    import re
    d = {}
    for e, n in re.findall(r"([A-Z][a-z]?|[a-z])(\d*)", sp):
        d[e] = d.get(e, 0) + (int(n) if n else 1)
    return d


def state_totals(st):
    el, si = {}, {}
    for n, sp, ns, site in st:
        if sp != "*":
            for e, c in elems(sp).items():
                el[e] = el.get(e, 0) + n * c
        if site not in ("g", "l"):
            si[site] = si.get(site, 0) + n * ns
    return el, si


def conserved(rxn):
    t = [state_totals(s) for s in rxn]
    return all(x == t[0] for x in t)


def shuffled(rng, xs):
    xs = list(xs)
    rng.shuffle(xs)
    return xs


def split_coef(rng, st, p=0.3):
    """Writes a coefficient as repeated formulas: 2O_s -> O_s + O_s."""
    out = []
    for f in st:
        if f[0] >= 2 and rng.random() < p:
            k = rng.randint(1, f[0] - 1)
            out += [[k] + f[1:], [f[0] - k] + f[1:]]
        else:
            out.append(f)
    return shuffled(rng, out) if rng.random() < 0.5 else out


class NetGen:
    """Random networks.  opts:
      sites     site kinds
      liquid    allow liquids
      bident    allow adsorbates with two sites
      ts        probability of a transition state
      maxcoef   largest coefficient
      repeat    probability of repeated species in a state
      catalyst  probability of adding a spectator to both sides"""

    def __init__(self, rng, sites=("s", "t"), liquid=True, bident=False, ts=0.5, maxcoef=3, repeat=0.25,
                 catalyst=0.15, nsmax=5, ts_ads=0.2):
        self.rng, self.sites, self.liquid, self.bident = rng, sites, liquid, bident
        self.ts, self.maxcoef, self.repeat, self.catalyst, self.ts_ads = ts, maxcoef, repeat, catalyst, ts_ads
        k = rng.choice([2, 3, 4, 4, 7])
        self.el = rng.sample(ELEMS, k)

    def species(self):
        rng = self.rng
        parts = [(e, rng.choice([1, 1, 1, 2, 3, 4, 12] if rng.random() < 0.3 else [1, 1, 2]))
                 for e in rng.sample(self.el, min(rng.choice([1, 1, 1, 2, 2, 2, 3] if rng.random() < 0.9 else [4, 5, 6]), len(self.el)))]
        return mol(*parts)

    def fluids(self):
        """Several fluids made of the elements of an adsorbate, some of them twice."""
        rng = self.rng
        xs = [self.species() for _ in range(rng.choice([2, 3, 3, 4, 5]))]
        if rng.random() < 0.3:
            xs.append(rng.choice(xs))
        return xs

    def fluid(self):
        return "l" if self.liquid and self.rng.random() < 0.3 else "g"

    def tstate(self, sa, sb, site_totals, extra=()):
        """A transition state with the same content: one TS species + free sites / spectators."""
        rng = self.rng
        n = dict(site_totals)
        st = []
        if not n:
            return None
        site = rng.choice(sorted(n))
        name = sa + "-" + sb
        if rng.random() < 0.2:      # several bonds
            name = "-".join(re.findall(r"[A-Z][a-z]?\d*", sa + sb))
        ns = rng.randint(1, n[site])
        st.append(fm(1, name, site, ns))
        n[site] -= ns
        for k, c in sorted(n.items()):
            if c:
                st.append(fm(c, "*", k))
        return shuffled(rng, st)

    def step(self):
        rng = self.rng
        s = rng.choice(self.sites)
        a, b = self.species(), self.species()
        kind = rng.choice(["ads", "diss", "lh", "er", "hop", "decomp", "multi", "assoc", "exch", "many"])
        ph = self.fluid()
        tsp = None
        if kind == "ads":
            n = rng.randint(1, self.maxcoef)
            ist, fst = [fm(n, a, ph), fm(n, "*", s)], [fm(n, a, s)]
            if self.bident and rng.random() < 0.4:
                k = rng.choice([2, 2, 3])
                ist, fst = [fm(1, a, ph), fm(k, "*", s)], [fm(1, a, s, k)]
        elif kind == "diss":
            e = rng.choice(self.el)
            n = rng.choice([2, 2, 2, 3] if self.maxcoef >= 3 else [2])
            ist, fst = [fm(1, mol((e, n)), ph), fm(n, "*", s)], [fm(n, e, s)]
            tsp = (e, mol((e, n - 1)))
        elif kind == "lh":
            t = rng.choice(self.sites)
            ist, fst = [fm(1, a, s), fm(1, b, t)], [fm(1, a + b, ph), fm(1, "*", s), fm(1, "*", t)]
            tsp = (a, b)
        elif kind == "er":
            ist, fst = [fm(1, a, ph), fm(1, b, s)], [fm(1, a + b, s)]
            tsp = (a, b)
        elif kind == "hop":
            t = rng.choice(self.sites)
            n = rng.randint(1, min(2, self.maxcoef))
            ist, fst = [fm(n, a, s), fm(n, "*", t)], [fm(n, a, t), fm(n, "*", s)]
        elif kind == "decomp":
            t = rng.choice(self.sites)
            ist, fst = [fm(1, a + b, s), fm(1, "*", t)], [fm(1, a, s), fm(1, b, t)]
            tsp = (a, b)
        elif kind == "multi":
            x, y = rng.sample(self.el, 2)
            n = rng.randint(2, max(2, self.maxcoef))
            ist = [fm(1, x, s), fm(n, y, s)]
            fst = [fm(1, mol((x, 1), (y, n)), ph), fm(n + 1, "*", s)]
            tsp = (x, mol((y, n)))
        elif kind == "assoc":
            e = rng.choice(self.el)
            ist, fst = [fm(2, e, s)], [fm(1, mol((e, 2)), s), fm(1, "*", s)]
            tsp = (e, e)
        elif kind == "many":
            xs = self.fluids()
            ist = [fm(1, "".join(xs), s)]
            fst = [fm(1, x, self.fluid()) for x in xs] + [fm(1, "*", s)]
            tsp = ("".join(xs[:1]), "".join(xs[1:]))
        else:
            x, y = rng.sample(self.el, 2)
            ist = [fm(1, x + y, s), fm(1, y, s)]
            fst = [fm(1, x, s), fm(2, y, s), ]
            ist = ist + [fm(1, "*", s)]
            tsp = (x, mol((y, 2)))
        spectator = []
        if rng.random() < self.catalyst:
            c = self.species()
            sc = rng.choice(self.sites) if rng.random() < 0.6 else self.fluid()
            n = rng.randint(1, 2)
            spectator = [fm(n, c, sc)]
            ist = ist + spectator
            fst = fst + spectator
            if rng.random() < 0.5:
                tsp = None
        if rng.random() < 0.5:
            ist, fst = fst, ist
        rxn = [ist, fst]
        if rng.random() < self.ts:
            _, si = state_totals(ist)
            if tsp is None:
                # spectators keep their identity in the transition state
                if rng.random() < self.ts_ads and len(ist) > 1 and si:
                    same = rng.choice([shuffled(rng, fst), shuffled(rng, fst), ist, fst])
                    rxn = [ist, [list(f) for f in same], fst] if rng.random() < 0.3 else rxn
            else:
                for n, _, ns, k in spectator:
                    if k in si:
                        si[k] -= n * ns
                t = self.tstate(tsp[0], tsp[1], {k: c for k, c in si.items() if c})
                if t:
                    rxn = [ist, shuffled(rng, t + spectator), fst]
        if rng.random() < self.repeat:
            rxn = [split_coef(rng, st, 0.6) for st in rxn]
        elif rng.random() < 0.5:
            rxn = [shuffled(rng, st) for st in rxn]
        # merge species equal by construction (a == b) is left as repetition
        return rxn if conserved(rxn) else self.step()

    def network(self, lo=1, hi=5, texts=True):
        rng = self.rng
        out, seen = [], set()
        for _ in range(rng.randint(lo, hi)):
            r = self.step()
            t = rtext(r, None)
            if t not in seen:
                seen.add(t)
                out.append(r)
        return out


def break_rxn(rng, rxn):
    """One local change that usually breaks conservation."""
    import copy
    r = copy.deepcopy(rxn)
    si = rng.randrange(len(r))
    st = r[si]
    k = rng.choice(["coef", "drop", "site", "elem", "nsite", "dup"])
    f = rng.choice(st)
    if k == "coef":
        f[0] += rng.choice([1, 1, 2, 9])
    elif k == "drop" and len(st) > 1:
        st.remove(f)
    elif k == "site" and f[3] not in ("g", "l"):
        f[3] = "u" if f[3] != "u" else "v"
    elif k == "elem" and f[1] != "*":
        f[1] = f[1] + rng.choice(["H", "H2", "C", "O", "Cl"])
    elif k == "nsite" and f[1] != "*" and f[3] not in ("g", "l"):
        f[2] += 1
    else:
        st.append([1, "H", 1, rng.choice(["g", "s"])])
    return r


def species_of(net):
    """gases, liquids, adsorbates, site kinds of an abstract network."""
    g, li, ads, sites = set(), set(), set(), set()
    for rxn in net:
        for st in rxn:
            for f in st:
                ss = sstext(f)
                if f[3] == "g":
                    g.add(ss)
                elif f[3] == "l":
                    li.add(ss)
                else:
                    sites.add(f[3])
                    if "-" not in f[1] and f[1] != "*":
                        ads.add(ss)
    return sorted(g), sorted(li), sorted(ads), sorted(sites)
