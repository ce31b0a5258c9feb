#!/usr/bin/env python3
"""tools/mutate.py [-n N] [-j J] [-s SEED] FILE...: random mutants of files of the repository (relative to scaks/)
that pass the existing tests, and which of the checks anchored in the file notice them.
Survivors are printed; nothing is kept.  Needs a clean /repo; works in copies under /tmp."""
import argparse, ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.FloorDiv: [ast.Mod]}


def boring(n):
    t = ast.unparse(n)
    return any(w in t for w in ("logger", "log_allowed", "msg", "print(", "raise ", "log_")) or isinstance(n, (ast.Import, ast.ImportFrom))


def points(tree):
    """Mutators: functions that change the tree in place."""
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.If, ast.For, ast.While, ast.Try, ast.With)) and boring(n):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip |= {id(x) for x in ast.walk(n)}

    def add(n, what, f):
        out.append((n.lineno, what, f))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                for c in CMP.get(type(o), []):
                    add(n, "cmp", lambda n=n, i=i, c=c: n.ops.__setitem__(i, c()))
        if isinstance(n, ast.BinOp):
            for c in BIN.get(type(n.op), []):
                add(n, "bin", lambda n=n, c=c: setattr(n, "op", c()))
        if isinstance(n, ast.BoolOp):
            add(n, "bool", lambda n=n: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And()))
            add(n, "drop", lambda n=n: n.values.pop())
            add(n, "drop", lambda n=n: n.values.pop(0))
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes, type(None), type(...))):
            v = n.value
            for w in ([not v] if isinstance(v, bool) else [v + 1, v - 1] if isinstance(v, int) else [v * 10, v / 10 if v else 1.0]):
                add(n, "const", lambda n=n, w=w: setattr(n, "value", w))
        if isinstance(n, (ast.If, ast.While)) and not boring(n.test):
            add(n, "cond", lambda n=n: setattr(n, "test", ast.UnaryOp(ast.Not(), n.test)))
            add(n, "true", lambda n=n: setattr(n, "test", ast.Constant(True))) if isinstance(n, ast.If) else None
            add(n, "false", lambda n=n: setattr(n, "test", ast.Constant(False)))
        if isinstance(n, ast.UnaryOp):
            add(n, "unary", lambda n=n: setattr(n, "op", ast.UAdd() if isinstance(n.op, ast.USub) else n.op) if not isinstance(n.op, ast.Not) else setattr(n, "operand", ast.UnaryOp(ast.Not(), n.operand)))
        if isinstance(n, ast.AugAssign):
            for c in BIN.get(type(n.op), []):
                add(n, "aug", lambda n=n, c=c: setattr(n, "op", c()))
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                add(n.lower, "slice", lambda n=n: setattr(n, "lower", None))
            if n.upper is not None:
                add(n.upper, "slice", lambda n=n: setattr(n, "upper", None))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("sorted", "set", "tuple", "list", "abs", "max", "min", "int", "float", "reversed", "deepcopy"):
            if n.func.id in ("max", "min"):
                add(n, "call", lambda n=n: setattr(n.func, "id", "min" if n.func.id == "max" else "max"))
            elif len(n.args) == 1 and n.func.id in ("sorted", "abs"):
                add(n, "call", lambda n=n: (setattr(n.func, "id", "list" if n.func.id == "sorted" else "float")))
            elif n.func.id == "deepcopy":
                add(n, "call", lambda n=n: setattr(n.func, "id", "(lambda x: x)"))
        if isinstance(n, ast.comprehension) and n.ifs:
            add(n.ifs[0], "filter", lambda n=n: n.ifs.clear())
        for field in ("body", "orelse", "finalbody"):
            b = getattr(n, field, None)
            if not isinstance(b, list) or isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            for s in b:
                if id(s) in skip:
                    continue
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.If)) and not (isinstance(s, ast.If) and boring(s)):
                    add(s, "delete", lambda b=b, s=s: b.__setitem__(b.index(s), ast.copy_location(ast.Pass(), s)))
                if isinstance(s, ast.Break):
                    add(s, "break", lambda b=b, s=s: b.__setitem__(b.index(s), ast.copy_location(ast.Continue(), s)))
            for x, y in zip(b, b[1:]) if os.environ.get("SWAP") else ():
                if id(x) in skip or id(y) in skip:
                    continue
                if isinstance(x, (ast.Assign, ast.AugAssign, ast.Expr)) and isinstance(y, (ast.Assign, ast.AugAssign, ast.Expr)):
                    add(x, "swap", lambda b=b, x=x, y=y: (lambda i, j: (b.__setitem__(i, y), b.__setitem__(j, x)))(b.index(x), b.index(y)))
    return out


def mutant(src, k):
    tree = ast.parse(src)
    base = ast.unparse(tree)
    p = points(tree)[k]
    p[2]()
    new = ast.unparse(tree)
    a, b = base.splitlines(), new.splitlines()
    import difflib
    d = [x for x in difflib.unified_diff(a, b, n=0, lineterm="") if x[:1] in "+-" and x[:3] not in ("---", "+++")]
    return new, "%d %s: %s" % (p[0], p[1], " | ".join(x.strip() for x in d)[:300])


def tests(copy_):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONPATH=copy_)
    j = copy_ + "/../j.xml"
    try:
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "--continue-on-collection-errors",
                        "--ignore=scaks/tests/test_all.py", "scaks/tests", "-o", "junit_family=xunit2", "--junitxml=" + j], cwd=copy_, env=e,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", copy_ + "/../o.json", "junit:" + j], stdout=subprocess.DEVNULL)
        ok = set(json.load(open(copy_ + "/../o.json"))["passed"])
    except Exception:
        return False
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) <= ok


ONE = r'''
import json, os, sys, pickle, hashlib
V, repo, pid, tmp = sys.argv[1:5]
os.environ["VERIF_REPO"] = repo
sys.path.insert(0, V + "/harness")
import runner
real = runner.model_check
def cached(p, mc, tier, scratch):
    f = "/tmp/mutcache/" + hashlib.md5(json.dumps(mc, sort_keys=True).encode()).hexdigest()
    if not os.path.exists(f):
        r = real(p, mc, tier, scratch)
        os.makedirs("/tmp/mutcache", exist_ok=True)
        pickle.dump(r, open(f + ".%d" % os.getpid(), "wb")); os.rename(f + ".%d" % os.getpid(), f)
    return pickle.load(open(f, "rb"))
runner.model_check = cached
import shutil
shutil.copy(V + "/KNOWN_FINDINGS.txt", tmp)
runner.VERIF = tmp
sys.exit(runner.main([pid]))
'''


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+")
    ap.add_argument("-n", type=int, default=20)
    ap.add_argument("-j", type=int, default=3)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-f", "--function", default="")
    a = ap.parse_args()
    props = [json.loads(x) for x in open(V + "/properties.jsonl")]
    rng = random.Random(a.s)
    jobs = []
    for fn in a.files:
        src = open("/repo/scaks/" + fn).read()
        tree = ast.parse(src)
        k = list(range(len(points(tree))))
        if a.function:
            r = [(n.lineno, n.end_lineno) for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and n.name == a.function]
            k = [i for i in k if any(x <= points(ast.parse(src))[i][0] <= y for x, y in r)]
        for i in rng.sample(k, min(a.n, len(k))):
            jobs.append((fn, src, i))

    def work(job):
        fn, src, i = job
        new, what = mutant(src, i)
        w = tempfile.mkdtemp(prefix="mutant.")
        try:
            shutil.copytree("/repo", w + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
            with open(w + "/repo/scaks/" + fn, "w") as f:
                f.write(new)
            if not tests(w + "/repo"):
                return "T", fn, what, ""
            one = w + "/one.py"
            with open(one, "w") as f:
                f.write(ONE)
            note = []
            for p in props:
                if "scaks/" + fn not in p["anchors"]["files"]:
                    continue
                os.makedirs(w + "/v", exist_ok=True)
                try:
                    r = subprocess.run(["python3", one, V, w + "/repo", p["id"], w + "/v"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 99
                if rc == 1:
                    return "K", fn, what, p["id"] + " ".join([""] + note)
                if rc:
                    note.append("%s:rc=%d %s" % (p["id"], rc, r.stdout[-200:].replace("\n", " ") if rc != 99 else ""))
            return "S", fn, what, " ".join(note)
        finally:
            shutil.rmtree(w, ignore_errors=True)
    n = dict(T=0, K=0, S=0)
    with ThreadPoolExecutor(a.j) as ex:
        for v, fn, what, by in ex.map(work, jobs):
            n[v] += 1
            if v != "T":
                print(dict(K="killed  ", S="SURVIVED")[v], fn, what, "=>", by, flush=True)
    print("broken by tests %(T)d, killed by checks %(K)d, survived %(S)d" % n)


main()
