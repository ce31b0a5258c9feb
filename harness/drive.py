"""Driver process: generates the scenarios of a property, executes them on the
real code (imported from /repo through PYTHONPATH) and records the trace."""
import importlib, json, os, random, signal, sys, time, traceback, logging, warnings


class ScenarioTimeout(BaseException):
    pass


def _alarm(*_):
    raise ScenarioTimeout()


def main():
    pid, specfile, trace, seed, tier, shard, nsh = sys.argv[1:8]
    shard, nsh = int(shard), int(nsh)
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    mod = importlib.import_module("p_" + pid.lower())
    if len(sys.argv) > 8:
        scns = [json.load(open(sys.argv[8]))["scenario"]]
    else:
        spec = [json.loads(x) for x in open(specfile)]
        rng = random.Random("%s/%s/%s" % (pid, seed, tier))
        scns = list(mod.scenarios(rng, tier, spec))
        for i, s in enumerate(scns):
            s.setdefault("id", "s%05d" % i)
    if os.environ.get("VERIF_COVER"):
        import cover
        cover.start(os.environ["VERIF_COVER"], os.environ["VERIF_REPO"] + "/scaks/")
    signal.signal(signal.SIGALRM, _alarm)
    limit = getattr(mod, "TIMEOUT", 60)
    stuck, t0 = 0, time.time()
    with open(trace, "w") as out, open(trace + ".scn", "w") as so:
        for i, s in enumerate(scns):
            if i % nsh != shard:
                continue
            # Code that hangs or crawls is reported in time instead of never.
            if stuck >= 3 or (tier == "quick" and time.time() - t0 > 500):
                break
            so.write(json.dumps(s) + "\n")
            signal.alarm(limit)
            evs = []
            try:
                for e in mod.run(s):
                    evs.append(e)
            except ScenarioTimeout:
                evs.append(dict(ev="stuck"))
                stuck += 1
            except Exception as e:
                evs.append(dict(ev="crash", what=traceback.format_exc()[-1500:]))
            finally:
                signal.alarm(0)
            for e in evs:
                e["scn"] = s["id"]
                out.write(json.dumps(e) + "\n")


main()
