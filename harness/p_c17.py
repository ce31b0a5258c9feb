"""C17: declared attributes of models: validation, write-once, isolation."""
import copy, os
import drv, fakekmc
fakekmc.install()
TAGS = {int: "i", float: "f", str: "s", bool: "b"}


def enc(v):
    """A value as <<tag, payload>> of the specification."""
    t = type(v)
    if v is None:
        return ["n", ""]
    if t in TAGS:
        return [TAGS[t], repr(v) if t is not str else v]
    if t in (list, tuple):
        return ["l" if t is list else "t", [enc(x) for x in v]]
    if t is dict:
        return ["d", [[enc(k), enc(x)] for k, x in v.items()]]
    return ["x", t.__name__]


class SubInt(int):
    pass


class SubList(list):
    pass


def dec(v):
    tag, p = v
    if tag == "i":
        return int(p)
    if tag == "f":
        return float(p)
    if tag == "b":
        return p == "True"
    if tag == "n":
        return None
    if tag in "lt":
        q = [dec(x) for x in p]
        return q if tag == "l" else tuple(q)
    if tag == "d":
        return {dec(k): dec(x) for k, x in p}
    if tag == "x":
        return {"SubInt": SubInt(1), "SubList": SubList(["a"]), "set": {1}, "complex": 1j, "float64": __import__("numpy").float64(1.0),
                "ndarray": __import__("numpy").array([[1.0, 2.0, 3.0]]), "int64": __import__("numpy").int64(1), "bytes": b"a"}[p]
    return p


def decl(kind, default, cands=(), entry="", deep=False):
    # numbers of different types can be equal: list every value equal to a candidate
    same = [y for c in cands for y in ([c] if isinstance(c, str) else [x for x in (int(c), float(c)) + ((True,) if c == 1 else (False,) if c == 0 else ()) if x == c])]
    return dict(kind=kind, default=enc(default), cands=[enc(c) for c in same], entry=entry, deep=deep)


KIN = {
    "temperature": decl("Float", 298.0), "rate_algo": decl("String", "TST"),
    "unitcell_area": decl("Float", 0.0), "active_ratio": decl("Float", 1.0),
    "components": decl("Sequence", ["parser"], entry="s"),
}
LEVELS = list(range(0, 60, 10))
MICRO = dict(KIN, **{
    "decimal_precision": decl("Integer", 100), "perturbation_size": decl("Float", 0.01),
    "perturbation_direction": decl("String", "right", ["right", "left"]),
    "archived_variables": decl("Sequence", ["steady_state_coverages"], entry="s"),
    "numerical_representation": decl("String", "mpmath", ["mpmath", "sympy"]),
    "rootfinding": decl("String", "MDNewton", ["MDNewton", "ConstrainedNewton"]),
    "tolerance": decl("Float", 1e-8), "max_rootfinding_iterations": decl("Integer", 100),
    "ode_buffer_size": decl("Integer", 500), "ode_output_interval": decl("Integer", 200),
    "ref_energies": decl("RefEnergies", {}),
})
KMC = dict(KIN, **{
    "cell_vectors": decl("SpaceVectors", [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]),
    "basis_sites": decl("SpaceVectors", [[0.0, 0.0, 0.0]]),
    "repetitions": decl("Sequence", (1, 1, 1), entry="i"), "periodic": decl("Sequence", (True, True, True), entry="b"),
    "nstep": decl("Integer", 1), "random_seed": decl("Integer", None), "time_seed": decl("Bool", False),
    "trajectory_dump_interval": decl("Integer", 1),
    "random_generator": decl("String", "MT", ["MT", "MINSTD", "RANLUX24", "RANLUNX48"]),
    "analysis": decl("Sequence", [], ["CoveragesAnalysis", "FrequencyAnalysis", "TOFAnalysis", "EventAnalysis"], entry="s"),
    "analysis_interval": decl("AnalysisInterval", None),
    "possible_element_types": decl("Sequence", [], entry="s"), "possible_site_types": decl("Sequence", [], entry="s"),
    "empty_type": decl("String", "V"), "tof_start": decl("Integer", 0), "time_limit": decl("Float", float("inf")),
    "coverage_ratios": decl("Sequence", [], entry="f"), "extra_trajectories": decl("Sequence", None, entry="i"),
    "start_time": decl("Float", 0.0), "tof_interval": decl("Float", 10), "do_redistribution": decl("Bool", False),
    "redistribution_interval": decl("Integer", 1), "fast_species": decl("Sequence", None, entry="s"),
    "nsplits": decl("Sequence", (1, 1, 1), entry="i"),
    "distributor_type": decl("String", "RandomDistributor", ["RandomDistributor", "ProcessRandomDistributor"]),
})
ODD = [["x", n] for n in ("SubInt", "SubList", "set", "complex", "float64", "ndarray", "int64", "bytes")]


def scalar(rng):
    return rng.choice([["i", str(rng.randint(-3, 60))], ["i", "1"], ["f", repr(rng.choice([0.0, 1.0, 2.5, -1.5, 1e-8]))], ["s", rng.choice(["a", "CO_g", "TST", "left", "MT", ""])],
                       ["b", rng.choice(["True", "False"])], ["n", ""], rng.choice(ODD)])


def table(rng):
    n, m = rng.choice([0, 1, 2, 3, 6]), rng.choice([3, 3, 3, 2, 1, 0])
    rows = [[rng.choice("lt") if rng.random() < 0.2 else "l", [["f", repr(rng.choice([0.0, 1.0, -2.5]))] for _ in range(m)]] for _ in range(n)]
    for _ in range(rng.choice([0, 0, 1, 2])):
        if rows and rows[0][1]:
            r = rng.choice(rows)
            k = rng.randrange(5)
            if k == 0 and r[1]:
                r[1][rng.randrange(len(r[1]))] = ["i", "2"]
            elif k == 4 and r[1]:
                r[1][rng.randrange(len(r[1]))] = rng.choice([["x", "complex"], ["n", ""]])
            elif k == 1 and r[1]:
                r[1].pop()
            elif k == 2 and r[1]:
                r[1][rng.randrange(len(r[1]))] = ["s", "a"]
            else:
                for q in rows:
                    q[1] = [["i", "1"] for _ in q[1]]
    return [rng.choice("lllt"), rows]


def value(rng, d, good=None):
    """A value; mostly near the border of what the declaration accepts."""
    k = d["kind"]
    if rng.random() < 0.12:
        return scalar(rng)
    if k in ("Integer", "Float", "String", "Bool"):
        if d["cands"] and rng.random() < 0.6:
            return rng.choice(d["cands"])
        tag = {"Integer": "i", "Float": rng.choice("if"), "String": "s", "Bool": "b"}[k]
        for _ in range(50):
            v = scalar(rng)
            if v[0] == tag or rng.random() < 0.1:
                return v
        return scalar(rng)
    if k == "Sequence":
        items = []
        for _ in range(rng.choice([0, 1, 2, 3, 3, 6, 9])):
            if d["cands"] and rng.random() < 0.9:
                items.append(rng.choice(d["cands"]))
            else:
                for _ in range(60):
                    v = scalar(rng)
                    if v[0] == d["entry"] or rng.random() < 0.05:
                        break
                items.append(v)
        if items and rng.random() < 0.3:   # one odd entry, often the last
            items[rng.choice([-1, -1, rng.randrange(len(items))])] = scalar(rng)
        return [rng.choice("llt") if rng.random() < 0.9 else "d", items] if rng.random() < 0.95 else ["s", "abc"]
    if k in ("FloatList2D", "SpaceVectors"):
        return table(rng)
    if k == "RefEnergies":
        return ["d", [[["s", x], ["f", "0.5"]] for x in rng.sample(["CO_g", "*_s", "C"], rng.randint(0, 2))] +
                ([[rng.choice([["i", "1"], ["s", "x"]]), rng.choice([["i", "1"], ["n", ""], ["s", "a"], ["f", "2.5"], ["b", "True"]])]] if rng.random() < 0.4 else [])]
    if k == "SpeciesDefinitions":
        es = []
        for x in rng.sample(["CO_g", "O2_g", "*_s", "CO_s", "g", "_g"], rng.randint(0, 3)):
            es.append([["s", x], ["d", [[["s", rng.choice(["pressure", "pressure", "total", "Pressure"])], ["f", "1.0"]]]]])
        return ["d", es]
    if k == "AnalysisInterval":
        def one():
            if rng.random() < 0.4:
                return rng.choice([["i", str(rng.randint(1, 9))], ["i", "1"], ["f", "1.0"], ["b", "True"]])
            a = rng.randint(-2, 5)
            b = a + rng.randint(-1, 4)
            c = b - a + rng.randint(-2, 1)
            q = [["i", str(x)] for x in (a, b, c)]
            if rng.random() < 0.15:
                q = rng.choice([q[:2], q + q[:1], [["f", "1.0"]] + q[1:], [["b", "True"]] + q[1:], []])
            return [rng.choice("lt"), q]
        if rng.random() < 0.25:
            return ["i", str(rng.randint(0, 9))]
        return [rng.choice("lt"), [one() for _ in range(rng.randint(0, 3))]]
    if k == "Dict":
        return ["d", [[["s", "k"], scalar(rng)]]]
    return scalar(rng)


def bad_seq(v):
    return v[0] == "d" and v[1] and not isinstance(v[1][0][0], list)


def clean(v):
    """Pairs where a dictionary is meant."""
    return ["s", "odd"] if bad_seq(v) else v


KINDS = ["Integer", "Float", "String", "Bool", "Dict", "Sequence", "FloatList2D", "SpaceVectors", "RefEnergies", "SpeciesDefinitions",
         "AnalysisInterval"]


def some_decl(rng):
    k = rng.choice(KINDS)
    if k == "Integer":
        return rng.choice([decl(k, 1, LEVELS), decl(k, None), decl(k, 5, [1, 5, -2])])
    if k == "Float":
        return rng.choice([decl(k, 1.0), decl(k, 2.5, [2.5, 1.0])])
    if k == "String":
        return rng.choice([decl(k, "a", ["a", "left"]), decl(k, "")])
    if k == "Bool":
        return rng.choice([decl(k, False), decl(k, True, [True])])
    if k == "Dict":
        return decl(k, rng.choice([{}, {"k": {"a": 1}}, {"k": [[1]], "m": {}}]), deep=rng.random() < 0.4)
    if k == "Sequence":
        if rng.random() < 0.25:
            return decl(k, rng.choice([[["a"]], [[1], {"k": [2]}], ([1, 2], [3])]), deep=rng.random() < 0.5)
        return rng.choice([decl(k, [], entry="s"), decl(k, ["a"], ["a", "left", "CO_g"], entry="s"), decl(k, [1], entry="i", deep=True),
                           decl(k, [], entry="f"), decl(k, (1, 2)), decl(k, [], ["a", "left"])])
    if k in ("FloatList2D", "SpaceVectors"):
        return decl(k, [[0.0, 0.0, 0.0]], deep=rng.random() < 0.3)
    if k == "SpeciesDefinitions":
        return decl(k, rng.choice([{}, {"CO_g": {"pressure": 1.0}}]), deep=True)
    if k == "RefEnergies":
        return decl(k, {})
    return decl(k, None)


def scenarios(rng, tier, spec):
    iv = [s["interval"] for s in spec if "interval" in s]
    for v in rng.sample(iv, min(len(iv), 500 if tier == "quick" else 5000)):
        yield dict(kind="script", decl={"a0": decl("AnalysisInterval", None)}, script=[["assign", 1, "a0", v], ["read", 1, "a0"]], insts=3)
    for s in spec:
        if "interval" in s:
            continue
        d = s["decl"]
        yield dict(kind="script", decl=d, script=s["script"], insts=3)
    n = 600 if tier == "quick" else 8000
    for _ in range(n):
        d = {"a%d" % i: some_decl(rng) for i in range(3)}
        ops, live = [], [1]
        for _ in range(rng.randint(4, 16)):
            i, a = rng.choice(live), rng.choice(list(d))
            k = rng.random()
            if k < 0.55:
                ops.append(["assign", i, a, clean(value(rng, d[a]))])
            elif k < 0.8:
                ops.append(["read", i, a])
            elif k < 0.92:
                ops.append([rng.choice(["mutate", "poke"]), i, a])
            elif len(live) < 3:
                live.append(len(live) + 1)
                ops.append(["new", len(live)])
        yield dict(kind="script", decl=d, script=ops, insts=3)
    for _ in range(60 if tier == "quick" else 600):
        for cls, tab in (("MicroKineticModel", MICRO), ("KMCModel", KMC)):
            given = []
            for a in rng.sample(sorted(tab), rng.randint(0, 4)):
                for _ in range(30):
                    v = clean(value(rng, tab[a]))
                    if v == ["s", "sympy"]:      # accepted by the attribute, but no solver is built with it
                        v = ["s", "mpmath"]
                    if rng.random() < 0.15 or acceptable(tab[a], v):
                        break
                given.append([a, v])
            names = rng.sample(sorted(tab), 5)
            ops = [[rng.choice(["assign", "assign", "read", "mutate", "poke"]), 1, rng.choice(names + [g[0] for g in given])] for _ in range(6)]
            ops = [o + [clean(value(rng, tab[o[2]]))] if o[0] == "assign" else o for o in ops]
            yield dict(kind="model", cls=cls, given=given, script=ops)
    yield dict(kind="query", cls="MicroKineticModel")
    yield dict(kind="query", cls="KMCModel")
    for cls in ("MicroKineticModel", "KMCModel"):
        for _ in range(10 if tier == "quick" else 100):
            yield dict(kind="component", cls=cls, ops=[rng.choice(["set_solver", "set_corrector", "set_plotter", "solver", "corrector", "parser", "plotter"]) +
                                                       "=" + rng.choice(["ss", "kmc", "corr", "rel", "abs", "kmcp", "none", "int", "bad", "plot", "class", "str"])
                                                       for _ in range(8)])


def acceptable(d, v):
    """Only steers the generator to setups that are mostly valid."""
    k = d["kind"]
    tags = {"Integer": "i", "Float": "if", "String": "s", "Bool": "b", "Sequence": "lt"}
    if k in tags and v[0] not in tags[k]:
        return False
    if k == "Sequence":
        return all((not d["entry"] or x[0] == d["entry"]) and (not d["cands"] or x in d["cands"]) for x in v[1])
    return not d["cands"] or v in d["cands"]


def build_class(d):
    from scaks.descriptors import descriptors as D
    py = {"s": str, "i": int, "f": float, "b": bool}
    ns = {}
    for a, x in d.items():
        kw = {}
        if x["kind"] in ("Integer", "Float", "String", "Bool", "Dict", "Sequence"):
            if x["cands"]:
                kw["candidates"] = [dec(c) for c in x["cands"]]
            if x["kind"] == "Sequence" and x["entry"]:
                kw["entry_type"] = py[x["entry"]]
        if x["deep"] or x["kind"] != "SpeciesDefinitions":
            kw["deepcopy"] = x["deep"]
        ns[a] = getattr(D, x["kind"])(a, dec(x["default"]), **kw)
    return type("Owner", (object,), ns)


def play(insts, script, make=None):
    out = []
    for op in script:
        if op[0] == "new":
            insts[op[1]] = make()
            continue
        o, a = insts[op[1]], op[2]
        rec = ["mutate" if op[0] == "poke" else op[0], op[1], a, ["n", ""], "", ["n", ""]]
        try:
            if op[0] == "read":
                rec[5] = enc(getattr(o, a))
            elif op[0] == "assign":
                rec[3] = enc(dec(op[3]))
                setattr(o, a, dec(op[3]))
            else:
                v = getattr(o, a)
                rec[3] = enc(v)
                while op[0] == "poke":     # the innermost container
                    q = [x for x in (v if type(v) in (list, tuple) else v.values() if type(v) is dict else ()) if type(x) in (list, dict, tuple) and x]
                    if not q:
                        break
                    v = q[-1]
                if type(v) is list:
                    v.append("zz")
                elif type(v) is dict:
                    v["zz"] = "zz"
                rec[5] = enc(getattr(o, a))
        except Exception as e:
            rec[4] = type(e).__name__
        out.append(rec)
    return out


RX = ["CO_g + *_s -> CO_s", "O2_g + 2*_s -> 2O_s", "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s"]
DEFS = {"CO_g": {"pressure": 1.0}, "O2_g": {"pressure": 0.5}, "CO2_g": {"pressure": 0.0}, "*_s": {"site_name": "111", "type": "site", "total": 1.0}}


def model(cls, **given):
    kw = dict(rxn_expressions=list(RX), species_definitions=copy.deepcopy(DEFS),
              parser="RelativeEnergyParser", solver="SteadyStateSolver" if cls == "MicroKineticModel" else "KMCSolver")
    kw.update(given)
    import scaks.models.micro_kinetic_model as m, scaks.models.kmc_model as k
    c = getattr(m if cls == "MicroKineticModel" else k, cls)
    try:
        return c(setup_dict=kw, logger_level=50, file_handler_level=50, console_handler_level=50)
    finally:
        drv.quiet_handlers()


def run(s):
    if s["kind"] == "script":
        c = build_class(s["decl"])
        insts = {1: c()}
        yield dict(ev="script", decl=drv.pairs(s["decl"]), out=play(insts, s["script"], c), insts=s["insts"], start=[], known=True)
    elif s["kind"] == "model":
        tab = MICRO if s["cls"] == "MicroKineticModel" else KMC
        given = [[a, enc(dec(v))] for a, v in s["given"]]
        used = {a: tab[a] for a in {g[0] for g in given} | {o[2] for o in s["script"]}}
        m, exc = drv.call(model, s["cls"], **{a: dec(v) for a, v in s["given"]})
        shown = []
        out = []
        if m is not None:
            out = play({1: m}, s["script"])
            m2, _ = drv.call(model, s["cls"], **{a: dec(v) for a, v in s["given"]})
            shown = [[a, enc(getattr(m2, a))] for a in used]
        yield dict(ev="build", decl=drv.pairs(used), given=given, exc=exc, shown=shown)
        if m is not None:
            yield dict(ev="script", decl=drv.pairs(used), out=out, insts=1, known=False, start=[[1, a, v] for a, v in given])
    elif s["kind"] == "query":
        m = model(s["cls"])
        names = dict(model=["log_allowed", "kB", "h", "logger", "elementary_rxns_list", "site_names", "adsorbate_names", "gas_names", "liquid_names",
                            "transition_state_names", "has_relative_energy", "has_absolute_energy", "relative_energies", "absolute_energies"],
                     parser=["species_definitions"])
        if s["cls"] == "MicroKineticModel":
            names["model"] += ["data_file", "steady_state_coverages", "TOFs", "reversibilities", "error"]
            names["solver"] = ["has_absolute_energy", "absolute_corrected", "has_symbols", "classified_adsorbates", "pressures", "concentrations",
                               "absolute_energies", "rate_expressions", "error", "coverages"]
        else:
            names["model"] += ["process_dicts", "processes", "configuration", "sitesmap", "process_mapping"]
            names["solver"] = ["processes", "process_mapping"]
        from scaks.mpicommons import mpi
        for where, o in (("model", m), ("parser", m.parser), ("solver", m.solver), ("mpi", mpi)):
            for n in names.get(where, ["rank", "size", "is_master"] if where == "mpi" else []):
                if not any(n in c.__dict__ for c in type(o).__mro__):
                    yield dict(ev="missing-" + where + "." + n)
                    continue
                before = look(o, n)
                for v in (1, None, "x"):
                    _, exc = drv.call(setattr, o, n, v)
                    yield dict(ev="query", name=where + "." + n, exc=exc, same=before == look(o, n))
    else:
        m = model(s["cls"])
        from scaks.solvers.steady_state_solver import SteadyStateSolver
        from scaks.solvers.kmc_solver import KMCSolver
        from scaks.correctors.thermodynamic_corrector import ThermodynamicCorrector
        from scaks.parsers.relative_energy_parser import RelativeEnergyParser
        for text in s["ops"]:
            w, k = text.split("=")
            slot = w.replace("set_", "")
            old = {x: look2(m, x) for x in ("solver", "corrector", "parser", "plotter")}
            if w.startswith("set_"):
                v = dict(ss=lambda: SteadyStateSolver(m), kmc=lambda: KMCSolver(m), corr=lambda: ThermodynamicCorrector(m),
                         rel=lambda: RelativeEnergyParser(m), none=lambda: None, int=lambda: 3, bad=lambda: object(),
                         str=lambda: "SteadyStateSolver", **{"class": lambda: SteadyStateSolver})
                v["class"] = lambda: SteadyStateSolver if slot == "solver" else ThermodynamicCorrector
                if k not in v or k == ("ss" if s["cls"] == "KMCModel" else "kmc"):
                    continue
                obj = v[k]()
                right = {"solver": k in ("ss", "kmc"), "corrector": k == "corr", "plotter": True}[slot]
                _, exc = drv.call(getattr(m, w), obj)
                now = look2(m, slot)
                yield dict(ev="component", op=text, exc=exc, right=right, is_new=now is obj, is_old=now is old[slot],
                           others_same=all(look2(m, x) is old[x] for x in old if x != slot))
            else:
                name = dict(ss="SteadyStateSolver", kmc="KMCSolver", corr="ThermodynamicCorrector", rel="RelativeEnergyParser",
                            abs="AbsoluteEnergyParser", kmcp="KMCParser", none=None, int=3, bad="NoSuchThing", plot="EnergyProfilePlotter",
                            str="str")
                name["class"] = SteadyStateSolver
                n = name[k]
                cands = dict(solver=["SteadyStateSolver", "KMCSolver"], corrector=["ThermodynamicCorrector"],
                             parser=["RelativeEnergyParser", "AbsoluteEnergyParser"], plotter=["EnergyProfilePlotter"])[slot]
                if slot == "parser" and k == "kmcp" or slot == "solver" and s["cls"] == "KMCModel" and k == "ss":
                    continue
                if slot == "solver" and s["cls"] == "MicroKineticModel" and k == "kmc":
                    continue
                _, exc = drv.call(setattr, m, slot, n)
                now = look2(m, slot)
                yield dict(ev="component", op=text, exc=exc, right=n in cands, is_new=type(now).__name__ == n and now is not old[slot] and
                           getattr(now, "_owner", m) is m, is_old=now is old[slot],
                           others_same=all(look2(m, x) is old[x] for x in old if x != slot))


def look(o, n):
    v, exc = drv.call(getattr, o, n)
    return repr(v) if not exc else exc


def look2(o, n):
    return getattr(o, n, None)
