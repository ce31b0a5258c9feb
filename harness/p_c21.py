"""C21: counts, turnover frequencies and events of a simulation."""
import p_c20


def scenarios(rng, tier, spec):
    for s in p_c20.scenarios(rng, tier, spec):
        if s["ev"] == "kmc":
            yield s


def run(s):
    return p_c20.run(s, ("freq", "tof", "evt"))
