"""Helpers of the drivers that touch the real code."""
import logging, os


def quiet_handlers():
    lg = logging.getLogger("model")
    for h in list(lg.handlers):
        try:
            h.close()
        except Exception:
            pass
        lg.removeHandler(h)


def make_model(rxns, defs, **kw):
    from scaks.models.micro_kinetic_model import MicroKineticModel
    d = dict(rxn_expressions=rxns, species_definitions=defs, temperature=kw.pop("temperature", 450.0),
             parser=kw.pop("parser", "RelativeEnergyParser"))
    d.update(kw)
    try:
        return MicroKineticModel(setup_dict=d, logger_level=50, file_handler_level=50, console_handler_level=50)
    finally:
        quiet_handlers()


def call(f, *a, **k):
    """(result, "") or (None, name of the exception)."""
    try:
        return f(*a, **k), ""
    except Exception as e:
        return None, type(e).__name__


def pairs(d):
    return [[k, v] for k, v in d.items()]


def ints(rows):
    """Nested numbers -> ints; anything not integral becomes the text of it."""
    out = []
    for r in rows:
        if isinstance(r, (list, tuple)):
            out.append(ints(r))
        else:
            out.append(int(r) if float(r) == int(r) else str(r))
    return out
