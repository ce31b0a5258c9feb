"""C27: molecular formulas."""
import drv

EL = ["H", "C", "N", "O", "F", "Ne", "S", "Cl"]


def formula(rng, depth):
    out = ""
    for _ in range(rng.randint(1, 4)):
        if depth and rng.random() < 0.35:
            out += "(" + formula(rng, depth - 1) + ")" + (str(rng.choice([0] + list(range(1, 13)) * 2)) if rng.random() < 0.8 else "")
        else:
            out += (rng.choice(EL) if rng.random() < 0.97 else rng.choice(["Co", "Xx", "Fe", "Na"])) + \
                   (str(rng.choice([1, 2, 2, 3, 4, 10, 12, 0][:rng.choice([7, 7, 7, 8])])) if rng.random() < 0.5 else "")
    if depth < 3 and rng.random() < 0.1:
        out = str(rng.randint(2, 12)) + out
    return out


def scenarios(rng, tier, spec):
    for s in spec:
        yield dict(text=s["text"])
    n = 0
    while n < (6000 if tier == "quick" else 20000):
        t = formula(rng, rng.randint(0, 3))
        if rng.random() < 0.2:
            i = rng.randrange(len(t) + 1)
            t = t[:i] + rng.choice(["(", ")", "h", "*", " ", "", "-", "(", ")"]) + t[i + (rng.random() < 0.4):]
        from math import prod
        import re
        if prod(max(int(x), 1) for x in re.findall(r"\d+", t)) > 300:
            continue
        n += 1
        yield dict(text=t)


def run(s):
    from scaks.functions import string2symbols
    from scaks.parsers.parser_base import ParserBase
    t = s["text"]
    atoms, exc = drv.call(string2symbols, t)
    rel, mexc = drv.call(ParserBase.get_molecular_mass, t)
    kg, e2 = drv.call(ParserBase.get_molecular_mass, t, absolute=True)
    yield dict(ev="formula", text=t, exc=exc, atoms=atoms or [], mexc=mexc or e2, mass=int(round((rel or 0) * 1e5)),
               unit=int(round(kg / rel * 1e35)) if rel and kg else 0)
