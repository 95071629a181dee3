"""Small things harnesses share."""
from harness import rec
from harness.spec import NS, SPEC


def config():
    return rec.fk("config")


def use(env, flavour):
    """Select the XML library: the model of it, or the real one on replay."""
    if env.symbolic:
        import importlib
        boot = importlib.import_module("sx.boot")
        m = boot.LIBS[flavour]
    elif getattr(env, "flavour", flavour) == "std":
        import xml.etree.ElementTree as m
    else:
        import lxml.etree as m
    config().set_etree_implementation(m)
    config().set_default_namespaces()
    return m


def report(env, what, out):
    for where, cond in out:
        env.check(cond, f"{what}: {where}")


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def verbosity(name):
    return getattr(rec.fk("enums").Verbosity, name)
