"""C18: sharing work among MPI ranks.  A stand-in for mpi4py offers a
communicator of P ranks; the rank that is asking is switched in between."""
import sys, types
import drv


class Comm(object):
    def __init__(self, size):
        self.size, self.rank, self.calls, self.data = size, 0, {}, {}

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def bcast(self, data, root=0):
        if self.rank == root:
            self.data["sent"] = data
        return self.data.get("sent")

    def barrier(self):
        self.calls["barrier"] = self.calls.get("barrier", 0) + 1
    Barrier = barrier

    def allgather(self, x):
        return [list(p) for p in self.data["all"]] if self.data.get("all") is not None else [x]

    def gather(self, x, root=0):
        r = self.allgather(x)
        return r if self.rank == root else None


COMM = Comm(1)
sys.modules["mpi4py"] = types.ModuleType("mpi4py")
sys.modules["mpi4py"].MPI = sys.modules["mpi4py.MPI"] = types.ModuleType("mpi4py.MPI")
sys.modules["mpi4py.MPI"].COMM_WORLD = COMM


def scenarios(rng, tier, spec):
    for s in spec:
        for kind in ("list", "tuple", "range", "str"):
            yield dict(n=s["n"], P=s["p"], kind=kind)
    top = 40 if tier == "quick" else 130
    for n in range(top):
        for P in range(1, 18 if tier == "quick" else 34):
            yield dict(n=n, P=P, kind=("list", "tuple")[(n + P) % 2])
    for _ in range(60 if tier == "quick" else 300):
        yield dict(n=rng.randint(0, 700), P=rng.randint(1, 64), kind="list")


FALSY = [0, 0.0, "", [], {}, False, None]


def build(kind, n):
    if kind == "list":
        return list(range(n))
    if kind == "tuple":
        return tuple(range(n))
    if kind == "str":
        return "".join(chr(97 + i) for i in range(n))
    return range(n)


def run(s):
    import scaks.mpicommons as m
    seq, P, n = build(s["kind"], s["n"]), s["P"], s["n"]
    comm = COMM
    comm.__init__(P)
    ran, out = [], dict(ev="partition", P=P, whole=list(seq), exc="", pieces=[], sizes=[], merged=[], worked=[],
                        masters=[], falsy=[], told=[], tells=repr(["to all", seq[:3]]), barriers=[], ran=[], results=[], same_kind=True, work=[])

    @m.master_only
    def limited(x, y=2):
        ran.append(comm.rank)
        return x + y
    @m.master_only
    def limited2(x):
        return x
    try:
        for r in range(P):
            comm.rank = r
            p = m.mpi.split_seq(seq)
            out["same_kind"] = out["same_kind"] and type(p) is type(seq)
            out["pieces"].append(list(p))
            out["sizes"].append(m.mpi.split_size(n))
        def job(x):    # results may all be equal
            return [0 if P % 3 else x, -n]
        for work, key in ((lambda x: x, "merged"), (job, "worked")):
            mine = [[work(x) for x in p] for p in out["pieces"]]
            comm.data["all"] = mine
            for r in range(P):
                comm.rank = r
                out[key].append(list(m.mpi.merge_seq(mine[r])))
        out["work"] = [job(x) for x in out["whole"]]
        for r in range(P):
            comm.rank = r
            if m.mpi.is_master:
                out["masters"].append(r)
            if limited(5, y=r) == 5 + r:
                out["results"].append(r)
            # results that count as false, and what the first rank tells all others
            out["falsy"].append([repr(limited2(v)) for v in FALSY])
            comm.calls["barrier"] = 0
            out["told"].append(repr(m.mpi.bcast(["to all", seq[:3]] if r == 0 else [r])))
            m.mpi.barrier()
            out["barriers"].append(comm.calls["barrier"])
        out["ran"] = ran
    except Exception as e:
        out["exc"] = type(e).__name__
    out["counts"] = [len(out["merged"]), len(out["worked"])]
    for key in ("merged", "worked"):      # equal results once each
        out[key] = [x for i, x in enumerate(out[key]) if x not in out[key][:i]]
    yield out
