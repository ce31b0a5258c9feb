"""C34: pictures of energy profiles."""
import os, random, shutil
os.environ.setdefault("MPLBACKEND", "Agg")
import gen, drv, kin

TWO = ["CO_g + *_s -> CO_s", "O2_g + 2*_s -> 2O_s", "H2_g + 2*_s <-> 2H_s", "CO_s -> CO_g + *_s"]
THREE = ["CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s", "H_s + O_s <-> H-O_2s -> HO_s + *_s", "CO_g + *_s <-> C-O_s -> CO_s", "HO_s + H_s <-> H-OH_2s -> H2O_g + 2*_s"]
U = 10 ** 6


def values(rng):
    k = rng.choice(["any", "zero", "thin", "flat", "equal"])
    d = rng.choice([rng.randint(-2 * U, 2 * U), 0, -U, U])
    top = max(d, 0)
    return [dict(any=rng.randint(0, 3 * U), zero=0, thin=top + rng.choice([1, 5, 9, 20, 200]), flat=top, equal=d if d > 0 else 0)[k], d]


def scenarios(rng, tier, spec):
    q = tier == "quick"
    for s in spec if len(spec) <= (250 if q else 2500) else rng.sample(spec, 250 if q else 2500):
        yield dict(s, real=rng.random() < (0.02 if q else 0.01), seed=rng.randrange(U))
    for i in range(80 if q else 800):
        st = [rng.choice([2, 3]) for _ in range(rng.randint(1, 6 if i % 5 else 16))]
        yield dict(states=st, hist=[dict(op="plot", rel=[]) if rng.random() < 0.5 else dict(op="parse", rel=[values(rng) for _ in st]) for _ in range(rng.randint(1, 4))] +
                   [dict(op="plot", rel=[])], real=rng.random() < (0.02 if q else 0.01), seed=rng.randrange(U))


def micro(x):
    return int(round(float(x) * U))


def run(s):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import matplotlib.figure as mf
    from catplot.ep_components.ep_canvas import EPCanvas
    rng = random.Random(s["seed"])
    rx = [rng.choice(TWO if n == 2 else THREE) for n in s["states"]]
    fm = [f for t in rx for st in kin.abstract(t) for f in st]
    defs = dict((gen.sstext(f), dict(pressure=1.0)) for f in fm if f[3] == "g")
    defs["*_s"] = dict(site_name="1", type="site", total=1.0)
    m = drv.make_model(rx, defs, plotter="EnergyProfilePlotter")
    shutil.rmtree("energy_profile", ignore_errors=True)
    pictures, canvases = [], []
    add, draw, save = EPCanvas.add_line, EPCanvas.draw, mf.Figure.savefig

    def add_line(self, line):
        add(self, line)
        canvases.append((self, line))

    def savefig(self, name, *a, **k):
        lines = [ln for c, ln in canvases if c.figure is self]
        p = dict(name=str(name), lines=len(lines), energies=[], equation="", style=[], first=0, last=0)
        if lines:
            ln = lines[-1]
            p.update(energies=[micro(x) for x in ln.energies], equation=ln.rxn_equation or "", style=[str(ln.color), micro(ln.peak_width), micro(ln.hline_length)],
                     first=micro(ln.y[0]), last=micro(ln.y[-1]))
        pictures.append(p)
        if s["real"]:
            save(self, name, *a, **k)
        else:
            open(name, "wb").write(b"\x89PNG")
        plt.close(self)
    EPCanvas.add_line, mf.Figure.savefig = add_line, savefig
    if not s["real"]:
        EPCanvas.draw = lambda self: None
    try:
        first = True
        for o in s["hist"]:
            e = dict(ev=o["op"], rxns=rx, first=first, exc="", rel=o["rel"], pictures=[], style=[], files=0)
            first = False
            if o["op"] == "parse":
                with open("rel.py", "w") as f:
                    f.write("Ga = %r\ndG = %r\n" % ([g / U for g, d in o["rel"]], [d / U for g, d in o["rel"]]))
                _, e["exc"] = drv.call(m.parser.parse_data, filename="rel.py")
            else:
                kw = {}
                if rng.random() < 0.4:
                    kw = dict(color=rng.choice(["#ff0000", "#00ff00"]), peak_width=rng.choice([0.5, 1.5]), hline_length=rng.choice([0.5, 2.0]))
                e["style"] = [kw.get("color", "#000000"), micro(kw.get("peak_width", 1.0)), micro(kw.get("hline_length", 1.0))]
                del pictures[:], canvases[:]
                _, e["exc"] = drv.call(m.plotter.plot_all, **kw)
                e["pictures"] = list(pictures)
                if os.path.isdir("energy_profile"):
                    for x in os.listdir("energy_profile"):
                        with open(os.path.join("energy_profile", x), "rb") as f:
                            e["files"] += f.read(4) == b"\x89PNG"
            yield e
    finally:
        EPCanvas.add_line, EPCanvas.draw, mf.Figure.savefig = add, draw, save
        plt.close("all")
