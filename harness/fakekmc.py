"""A stand-in for the KMC engine KMCLib, which is not installed: it records
what it is constructed with, so that the inputs SCAKS hands over are visible."""
import sys, types


class _Rec(object):
    def __init__(self, *a, **kw):
        if a:
            raise TypeError("only keyword arguments are recorded")
        self.kw = kw


class KMCProcess(_Rec):
    pass


class KMCInteractions(_Rec):
    pass


class KMCUnitCell(_Rec):
    pass


class KMCLattice(_Rec):
    pass


class KMCControlParameters(_Rec):
    pass


class KMCSitesMap(_Rec):
    def types(self):
        return list(self.kw["types"])


class KMCConfiguration(_Rec):
    def types(self):
        return list(self.kw["types"])


class KMCLatticeModel(_Rec):
    runs = []

    def run(self, **kw):
        KMCLatticeModel.runs.append((self, kw))

    def _script(self):
        return "# lattice model\n"


class KMCAnalysisPlugin(object):
    def __init__(self):
        pass

    def setup(self, step, time, configuration, interactions):
        pass

    def registerStep(self, step, time, configuration, interactions):
        pass

    def finalize(self):
        pass


def install():
    if "KMCLib" in sys.modules:
        return sys.modules["KMCLib"]
    m = types.ModuleType("KMCLib")
    for k, v in list(globals().items()):
        if k.startswith("KMC"):
            setattr(m, k, v)
    m.__all__ = [k for k in m.__dict__ if k.startswith("KMC")]
    sys.modules["KMCLib"] = m
    return m
