"""Registry of property harnesses (imported by symbolic and concrete runs; no dependencies)."""
HARNESSES = {}     # id -> list of Harness


class Harness:
    def __init__(self, prop, fn, cases, thorough, bounds, opts, assumes, stubs):
        self.prop = prop
        self.fn = fn
        self.name = fn.__name__
        self.cases = cases
        self.thorough = thorough
        self.bounds = bounds
        self.opts = opts
        self.assumes = assumes
        self.stubs = stubs


def prop(pid, cases=None, thorough=None, bounds='', assumes=(), stubs=(), **opts):
    """Register fn(S, **case).  cases: list of dicts run in both tiers; thorough: extra (or replacing if callable) cases."""
    def deco(fn):
        HARNESSES.setdefault(pid, []).append(
            Harness(pid, fn, list(cases) if cases is not None else [{}], list(thorough or []), bounds, opts,
                    list(assumes), list(stubs)))
        return fn
    return deco
