"""Ranks of a parallel run: one forked process each, with a stand-in for mpi4py
whose calls, and the file operations of interest, wait for the parent's leave.
Exactly one rank runs at a time, in the order the parent decides."""
import os, sys, types, select
from multiprocessing import Pipe


class Comm(object):
    rank, size, pipe = 0, 1, None

    def ask(self, what, data=None):
        if self.pipe is None:
            return [data] * self.size
        self.pipe.send((what, data))
        return self.pipe.recv()

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def barrier(self):
        self.ask("meet")
    Barrier = barrier

    def bcast(self, data, root=0):
        return self.ask("meet", data)[root]

    def allgather(self, data):
        return self.ask("meet", data)

    def gather(self, data, root=0):
        r = self.ask("meet", data)
        return r if self.rank == root else None


COMM = Comm()


def install():
    if "mpi4py" not in sys.modules:
        sys.modules["mpi4py"] = types.ModuleType("mpi4py")
        sys.modules["mpi4py"].MPI = sys.modules["mpi4py.MPI"] = types.ModuleType("mpi4py.MPI")
        sys.modules["mpi4py.MPI"].COMM_WORLD = COMM


def child(rank, size, pipe, work):
    import builtins
    COMM.rank, COMM.size, COMM.pipe = rank, size, pipe
    busy = []

    def pausing(f):
        def g(path, *a, **k):
            if isinstance(path, str) and not busy and (not os.path.isabs(path) or path.startswith(os.getcwd())):
                busy.append(1)
                COMM.ask("point")
                busy.pop()
            return f(path, *a, **k)
        return g
    for o, n in ((os, "mkdir"), (os, "makedirs"), (os.path, "exists"), (os.path, "isdir"), (builtins, "open")):
        setattr(o, n, pausing(getattr(o, n)))
    COMM.ask("point")
    try:
        res = work(rank)
    except BaseException as e:
        res = dict(died=type(e).__name__)
    pipe.send(("end", res))


def run(size, work, script):
    """Runs work(rank) on all ranks; script names the ranks to go next, the last
    one goes on while it can.  Returns the results, None for one that is stuck."""
    pipes, pids = [], []
    for r in range(size):
        a, b = Pipe()
        pid = os.fork()
        if pid == 0:
            try:
                for p in pipes:
                    p.close()
                a.close()
                child(r, size, b, work)
            finally:
                os._exit(0)
        b.close()
        pipes.append(a)
        pids.append(pid)
    state, res, reply = ["run"] * size, [None] * size, [None] * size
    said, todo, last = [None] * size, list(script), 0
    try:
        while True:
            for r in range(size):
                if state[r] == "run":
                    if not pipes[r].poll(20):
                        return res
                    try:
                        state[r], said[r] = pipes[r].recv()
                    except EOFError:
                        state[r], said[r] = "end", dict(died="EOF")
                    if state[r] == "end":
                        res[r] = said[r]
            if all(x == "meet" for x in state):   # everyone gets what everyone brought
                state, reply = ["point"] * size, [list(said)] * size
            ready = [r for r in range(size) if state[r] == "point"]
            if not ready:
                return res
            want = todo.pop(0) if todo else last
            last = want if want in ready else min(ready, key=lambda r: (r - want) % size)
            pipes[last].send(reply[last])
            state[last], reply[last] = "run", None
    finally:
        for p in pipes:
            p.close()
        for pid in pids:
            try:
                os.kill(pid, 9)
            except OSError:
                pass
            os.waitpid(pid, 0)
