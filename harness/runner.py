"""Runs the check of one property: model checking, replay on the real code,
trace validation, known findings, evidence.  Standard library only."""
import argparse, importlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)
from registry import PROPS  # noqa: E402


class Machinery(Exception):
    pass


def tlc(module, cfg, scratch, env=None, workers=None, extra=(), timeout=850, heap="3g"):
    """Runs TLC; returns (output, states, distinct)."""
    meta = tempfile.mkdtemp(prefix="meta", dir=scratch)
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:ParallelGCThreads=2 -Djava.io.tmpdir=%s" % (heap, meta)
    e.update(env or {})
    cmd = ["tlc", "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, "-lncheck", "final"]
    if workers:
        cmd += ["-workers", str(workers)]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True, errors="replace")
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", p.stdout, re.M)
    states, distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.findall(r"The number of states generated: (\d+)", p.stdout)
    if m and not states:
        states = distinct = int(m[-1])
    return p.returncode, p.stdout, states, distinct


def model_check(pid, mc, tier, scratch):
    """One exhaustive (or simulated) run of a specification module."""
    cfg = mc.get("thorough" if tier == "thorough" else "quick") or mc["quick"]
    env = {}
    out = None
    if mc.get("gen"):
        out = os.path.join(scratch, "spec_%s.ndjson" % mc["module"])
        env["OUT"] = out
    extra = list(mc.get("extra", []))
    if mc.get("simulate"):
        n, depth = mc["simulate"][1 if tier == "thorough" else 0]
        extra += ["-simulate", "num=%d" % n, "-depth", str(depth), "-seed", os.environ.get("VERIF_SEED", "1")]
    rc, txt, st, di = tlc(mc["module"], os.path.join(SPEC, cfg), scratch, env, workers=mc.get("workers"), extra=extra)
    if rc != 0:
        raise Machinery("model checking of %s/%s failed (rc=%d):\n%s" % (mc["module"], cfg, rc, txt[-3000:]))
    scen = []
    if out and os.path.exists(out):
        with open(out) as f:
            scen = [json.loads(x) for x in f if x.strip()]
    for line in txt.splitlines():
        if line.startswith('"SCN '):
            scen.append(json.loads(json.loads(line)[4:]))
    # Duplicates of simulated behaviours are dropped, order is made canonical.
    uniq = sorted({json.dumps(s, sort_keys=True) for s in scen})
    return dict(module=mc["module"], cfg=cfg, states=st, distinct=distinct_or(di, st)), [json.loads(u) for u in uniq]


def distinct_or(d, s):
    return d or s


def drive(pid, specfile, scratch, seed, tier, shard, nshards, replay=None, timeout=850):
    trace = os.path.join(scratch, "trace_%d.ndjson" % shard)
    wd = os.path.join(scratch, "wd_%d" % shard)
    os.mkdir(wd)
    env = dict(os.environ)
    env.update(PYTHONPATH=REPO + os.pathsep + HERE, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore",
               VERIF_REPO=REPO, TMPDIR=wd, HOME=wd)
    cmd = [PY, "-B", os.path.join(HERE, "drive.py"), pid, specfile, trace, str(seed), tier, str(shard), str(nshards)]
    if replay:
        cmd.append(replay)
    log = open(os.path.join(scratch, "drive_%d.log" % shard), "w")
    p = subprocess.run(cmd, cwd=wd, env=env, stdout=log, stderr=subprocess.STDOUT, timeout=timeout)
    log.close()
    if p.returncode != 0:
        raise Machinery("driver failed (rc=%d): %s" % (p.returncode, open(log.name).read()[-3000:]))
    return trace


def validate(conf, trace, scratch):
    """Checks a trace against the specification.  An event the specification
    cannot even evaluate (a value of a kind that no behaviour has) is no
    behaviour: its scenario is reported and the others are checked again."""
    lines = open(trace).read().splitlines()
    if not lines:
        return [], 0, 0
    keep = list(range(len(lines)))
    odd = []
    for turn in range(6):
        if not keep:
            return odd, 0, 0
        part = trace
        if turn:
            part = trace + ".%d" % turn
            with open(part, "w") as f:
                f.writelines(lines[i] + "\n" for i in keep)
        rc, txt, st, di = tlc(conf["trace"], os.path.join(SPEC, conf.get("cfg", "Trace.cfg")), scratch,
                              {"TRACE": part}, workers=1, heap="3g")
        fails = []
        for line in txt.splitlines():
            if line.startswith('"FAIL '):
                f = json.loads(json.loads(line)[5:])
                f["line"] = keep[f["line"] - 1] + 1
                fails.append(f)
        if rc == 0:
            return odd + fails, st, di
        m = re.search(r"depth of the complete state graph search is (\d+)", txt)
        if rc != 75 or not m or not 1 <= int(m.group(1)) <= len(keep) or "StackOverflow" in txt or "OutOfMemory" in txt:
            raise Machinery("trace validation failed (rc=%d):\n%s" % (rc, txt[-4000:]))
        at = keep[int(m.group(1)) - 1]
        scn = json.loads(lines[at])["scn"]
        odd.append(dict(line=at + 1, scn=scn, clauses=["not-in-specification"]))
        keep = [i for i in keep if json.loads(lines[i])["scn"] != scn]
    return odd + fails, st, di


def known(pid):
    """case -> (clauses, text) of the recorded findings of this property."""
    res = {}
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) case=(\S+) clauses=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                res[m.group(2)] = (set(m.group(3).split(",")), m.group(4).strip())
    return res


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args(argv)
    pid, conf = a.property, PROPS[a.property]
    os.environ["VERIF_SEED"] = str(a.seed)
    os.environ["VERIF_TIER"] = a.tier
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        return run(pid, conf, a, scratch, t0)
    except (Machinery, subprocess.TimeoutExpired) as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print("kept", scratch)


def run(pid, conf, a, scratch, t0):
    mcs, spec_scen = [], []
    if not a.replay:
        with ThreadPoolExecutor(max_workers=4) as ex:
            for info, scen in ex.map(lambda mc: model_check(pid, mc, a.tier, scratch), conf.get("mc", [])):
                mcs.append(info)
                for s in scen:
                    s["src"] = info["module"]
                    spec_scen.append(s)
    specfile = os.path.join(scratch, "spec.ndjson")
    with open(specfile, "w") as f:
        for s in spec_scen:
            f.write(json.dumps(s) + "\n")
    n = 1 if a.replay else conf.get("shards", 4)

    def one(i):
        tr = drive(pid, specfile, scratch, a.seed, a.tier, i, n, a.replay)
        return (tr,) + validate(conf, tr, scratch)
    with ThreadPoolExecutor(max_workers=n) as ex:
        results = list(ex.map(one, range(n)))
    states = sum(m["distinct"] for m in mcs) + sum(r[3] for r in results)
    trans = sum(m["states"] for m in mcs) + sum(r[2] for r in results)
    fails, scn_ids, events, samples, evkinds = {}, set(), 0, [], {}
    for tr, fl, _, _ in results:
        lines = open(tr).read().splitlines()
        for x in lines:
            e = json.loads(x)
            scn_ids.add(e["scn"])
            events += 1
            evkinds[e.get("ev", "?")] = evkinds.get(e.get("ev", "?"), 0) + 1
        for x in lines[:1] + lines[len(lines) // 2:len(lines) // 2 + 1]:
            if len(samples) < 4:
                samples.append(json.loads(x) if len(x) < 3000 else x[:3000])
        for f in fl:
            d = fails.setdefault(f["scn"], dict(clauses=set(), lines=[], trace=tr))
            d["clauses"] |= set(f["clauses"])
            d["lines"].append(json.loads(lines[f["line"] - 1]))
    kn = known(pid)
    violations, findings = [], []
    for sid, d in sorted(fails.items()):
        if sid in kn and d["clauses"] <= kn[sid][0]:
            findings.append((sid, kn[sid][1]))
        else:
            violations.append((sid, d))
    rdir = os.path.join(VERIF, "evidence", "replays")
    if not a.replay:
        shutil.rmtree(os.path.join(rdir, pid), ignore_errors=True)
    for sid, d in violations[:5]:
        os.makedirs(os.path.join(rdir, pid), exist_ok=True)
        path = os.path.join(rdir, pid, re.sub(r"\W+", "_", sid) + ".json")
        if a.replay:
            path = a.replay
        else:
            with open(path, "w") as f:
                json.dump(dict(property=pid, scenario=find_scn(scratch, sid), clauses=sorted(d["clauses"]),
                               events=d["lines"][:5]), f, indent=1)
        print("clauses broken by %s: %s" % (sid, ", ".join(sorted(d["clauses"]))))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for sid, text in findings:
        print("KNOWN-FINDING: property=%s case=%s %s" % (pid, sid, text))
    wall = time.time() - t0
    if not a.replay:
        ev = dict(property=pid, tier=a.tier, seed=a.seed, level="model_checking",
                  coverage=dict(states=states, transitions=trans, traces_validated_against_impl=len(scn_ids),
                                events=events, events_by_kind=evkinds, model_runs=mcs, spec_scenarios=len(spec_scen),
                                known_findings_seen=len(findings), samples=samples),
                  assumptions=conf.get("assumptions", []), wall_s=round(wall, 2), violations=len(violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if not events:
        raise Machinery("no event recorded")
    print("%s %s: %d model states, %d scenarios, %d events, %d violations, %d known, %.1fs" %
          (pid, a.tier, sum(m["distinct"] for m in mcs), len(scn_ids), events, len(violations), len(findings), wall))
    return 1 if violations else 0


def find_scn(scratch, sid):
    import glob
    for fn in glob.glob(os.path.join(scratch, "*.scn")):
        with open(fn) as f:
            for line in f:
                s = json.loads(line)
                if s["id"] == sid:
                    return s
    return {}


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
