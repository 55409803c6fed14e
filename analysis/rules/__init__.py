import importlib, pkgutil, collections

RULES = collections.OrderedDict()   # property -> [(name, fn)]


def rule(*props):
    def d(f):
        for p in props:
            RULES.setdefault(p, []).append((f.__module__.split(".")[-1] + "." + f.__name__, f))
        return f
    return d


def load():
    for m in sorted(x.name for x in pkgutil.iter_modules(__path__)):
        importlib.import_module(__name__ + "." + m)
    return RULES
