#!/bin/bash
# tools/plant.sh ID [CHECK...]: verifies a planted bug in a scratch copy of /repo:
# the patch applies, the stable tests pass, the demo fails with it and passes without it;
# then runs the given checks (default: the one of meta.json) against the copy.
set -u
V=$(cd "$(dirname "$0")/.." && pwd); B=$V/seeded/$1; shift
W=$(mktemp -d /tmp/plant.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cp -a "$B" "$W/bug"; rm -f "$W"/bug/patch.diff "$W/bug/meta.json"
cd "$W/repo"
demo() { sed "s#/repo#$W/repo#g" "$W/bug/demo.sh" > "$W/bug/demo2.sh"; for f in "$W"/bug/*.py; do [ -f "$f" ] && cp "$B/$(basename "$f")" "$f" && sed -i "s#/repo\b#$W/repo#g" "$f"; done; (cd "$W/repo"; timeout 300 bash "$W/bug/demo2.sh" >"$W/demo.log" 2>&1); }
demo; r=$?; [ $r -eq 0 ] || { echo "DEMO FAILS ON CLEAN ($r)"; tail -5 "$W/demo.log"; exit 1; }
git apply "$B/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 1; }
demo; r=$?; [ $r -ne 0 ] || { echo "DEMO PASSES WITH BUG"; exit 1; }
echo "demo: $(tail -1 "$W/demo.log" | cut -c1-150)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH=$W/repo
/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --ignore=scaks/tests/test_all.py scaks/tests -o junit_family=xunit2 --junitxml="$W/j.xml" >"$W/t.log" 2>&1
/usr/bin/python3 /opt/vp/results.py "$W/out.json" "junit:$W/j.xml" >/dev/null 2>&1
/usr/bin/python3 - "$W/out.json" <<'P' || exit 1
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open(sys.argv[1]))['passed'])
print("tests broken:", sorted(b-o)) if b-o else print("tests ok")
sys.exit(bool(b-o))
P
git checkout -q -- . ; git apply "$B/patch.diff"
C=${*:-$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")}
for c in $C; do (cd $V; VERIF_REPO=$W/repo timeout 900 ./check $c --seed 1 2>&1 | grep -v "^KNOWN" | cut -c1-200 | tail -4); done
