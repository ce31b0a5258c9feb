"""C22: coordinate groups.  Operation scripts on groups held in registers."""
import drv
U = 1e5
BADC = [(0.0, 0.0, 0.0), [0.0, 0.0], [0, 0, 0], [0.0, 0.0, 1], [0.0, 0.0, 0.0, 0.0], "abc", None, ["a", "b", "c"], [0.0, None, 0.0]]
BADV = [[0.0, 0.0], [0.0], (0.0, 0.0, 0.0), [0.0] * 4, "abc", 1.0, []]
BADE = [1, 1.0, ["V"], ("A",), True]


def point(rng):
    base = rng.choice([[0, 0, 0], [50000, 0, 0], [0, 50000, 0], [50000, 50000, 0], [33333, 66667, 0], [-50000, 0, 25000]])
    j = rng.choice([0, 0, 0, 3, 7])
    if rng.random() < 0.2:
        j = rng.choice([13, 24, 57])
    return [b + rng.choice([-j, 0, j]) for b in base]


def script(rng, n):
    ops, regs = [], [1, 2, 3, 4]
    for _ in range(n):
        k = rng.choice(["append"] * 4 + ["extend", "extend", "new", "move", "move"] + ["add"] * 4 + ["bad"])
        r, s, t = rng.choice(regs), rng.choice(regs), rng.choice(regs)
        if k == "append":
            ops.append([k, r, point(rng), rng.choice("VVVABC")])
        elif k in ("extend", "new"):
            if rng.random() < 0.12:    # a long row
                row = [[[i * 50000 + rng.choice([0, 0, 0, 5]), rng.choice([0, 50000]), 0], rng.choice("VVAB")] for i in range(rng.randint(6, 14))]
                rng.shuffle(row)
                ops.append([k, r, row])
                continue
            ops.append([k, r, [[point(rng), rng.choice("VVAB") if rng.random() < 0.8 else "O_s"] for _ in range(rng.randint(0, 3))]])
        elif k == "move":
            ops.append([k, r, s, [rng.choice([0, 50000, -50000, 12345, -7]) for _ in range(3)]])
        elif k == "add":
            ops.append([k, r, s, t])
        else:
            ops.append([k, r, rng.choice(["coord", "vector", "element", "extend", "new", "extelem"]), rng.randrange(9)])
    return ops


def scenarios(rng, tier, spec):
    for s in spec:
        yield dict(script=s["script"])
    for _ in range(800 if tier == "quick" else 3000):
        yield dict(script=script(rng, rng.randint(3, 25)))
    for _ in range(60 if tier == "quick" else 600):   # large groups with many coincidences
        n = rng.randint(6, 18)
        row = [[i * 50000, rng.choice([0, 50000]), 0] for i in range(n)]
        pick = lambda: [[[c + rng.choice([0, 0, 3]) for c in q], rng.choice("VVAB")] for q in rng.sample(row, rng.randint(n // 2, n))]
        yield dict(script=[["new", 1, pick()], ["extend", 2, pick()], ["add", 3, 1, 2], ["add", 4, 2, 1], ["move", 2, 2, [rng.choice([50000, 0]), 0, 0]], ["add", 3, 3, 2]])
    for kind in ("coord", "vector", "element", "extend", "new", "extelem"):
        for i in range(9):
            yield dict(script=[["append", 1, [0, 0, 0], "A"], ["append", 1, [50000, 0, 0], "V"], ["bad", 1, kind, i]])


def fl(p):
    return [x / U for x in p]


def grid(g):
    cs, es = g.coordinates(), g.elements()
    out = []
    for c, e in zip(cs, es):
        out.append([[int(round(x * U)) if abs(x * U - round(x * U)) < 1e-3 else -999999 for x in c], e])
    return out, len(g) == len(cs) == len(es)


def run(s):
    from scaks.utilities.coordinate_utilities import CoordsGroup
    g = {r: CoordsGroup() for r in (1, 2, 3, 4)}

    def read():
        a = [grid(g[r]) for r in sorted(g)]
        return [x[0] for x in a], all(x[1] for x in a)
    for op in s["script"]:
        before, _ = read()
        exc, ev, k = "", "op", op[0]
        try:
            if k == "append":
                g[op[1]].append(fl(op[2]), op[3]) if op[3] != "V" or op[2][0] % 2 else g[op[1]].append(fl(op[2]))
            elif k == "extend":
                if op[2] and all(e == "V" for _, e in op[2]):
                    g[op[1]].extend([fl(p) for p, _ in op[2]])
                else:
                    g[op[1]].extend([fl(p) for p, _ in op[2]], [e for _, e in op[2]])
            elif k == "new":
                if op[2] and all(e == "V" for _, e in op[2]):
                    g[op[1]] = CoordsGroup([fl(p) for p, _ in op[2]])
                else:
                    g[op[1]] = CoordsGroup([fl(p) for p, _ in op[2]], [e for _, e in op[2]])
            elif k == "move":
                g[op[2]] = g[op[1]].move(fl(op[3])) if any(op[3]) else g[op[1]].move()
            elif k == "add":
                g[op[3]] = g[op[1]] + g[op[2]]
            elif k == "bad":
                ev, i = "bad", op[3]
                if op[2] == "coord":
                    g[op[1]].append(BADC[i % len(BADC)], "A")
                elif op[2] == "vector":
                    g[op[1]].move(BADV[i % len(BADV)])
                elif op[2] == "element":
                    g[op[1]].append([0.0, 0.25, 0.0], BADE[i % len(BADE)])
                elif op[2] == "extelem":
                    g[op[1]].extend([[0.0, 0.25, 0.0]], [BADE[i % len(BADE)]])
                elif op[2] == "extend":
                    g[op[1]].extend([[0.0, 0.25, 0.0]] * (i % 3), ["A"] * (i % 3 + 1 + i // 3))
                else:
                    g[op[1]] = CoordsGroup([[0.0, 0.25, 0.0]] * (i % 3 + 1 + i // 3), ["A"] * (i % 3))
        except Exception as e:
            exc = type(e).__name__
        after, ok = read()
        rec = dict(ev=ev, op=op if ev == "op" else [op[2]], before=before, after=after, exc=exc, len_ok=ok)
        if k == "move":
            rec["op"] = ["move", op[1], op[2], op[3]]
        yield rec
