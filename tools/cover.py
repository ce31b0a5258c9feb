#!/usr/bin/env python3
"""Runs the checks with line recording and lists the lines of functions of the
repository that no driver executes.  usage: tools/cover.py [C01 ...]"""
import ast, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from registry import PROPS
repo = os.environ.get("VERIF_REPO", "/repo") + "/scaks/"
fd, path = tempfile.mkstemp()
for pid in sys.argv[1:] or sorted(PROPS):
    r = subprocess.run([os.path.join(V, "check"), pid], env=dict(os.environ, VERIF_COVER=path), stdout=subprocess.PIPE, text=True)
    print(r.stdout.strip().splitlines()[-1], flush=True)
hit = {}
for x in open(path):
    f, n = x.rsplit(":", 1)
    hit.setdefault(f, set()).add(int(n))
os.unlink(path)
for d, _, fs in os.walk(repo):
    for f in sorted(fs):
        p = os.path.join(d, f)
        rel = p[len(repo):]
        if not f.endswith(".py") or rel.startswith("tests") or "images2gif" in rel:
            continue
        for fn in ast.walk(ast.parse(open(p).read())):
            if isinstance(fn, ast.FunctionDef):
                body = {s.lineno for s in ast.walk(fn) if isinstance(s, ast.stmt) and s is not fn
                        and not isinstance(s, (ast.FunctionDef, ast.Global)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))}
                miss = sorted(body - hit.get(rel, set()))
                if miss:
                    print("%s %s: %d/%d missed %s" % (rel, fn.name, len(miss), len(body), miss if len(miss) < len(body) else "ALL"))
