"""Harness registry; imports without z3 (property modules are also loaded by the replayer)."""


class Harness:
    def __init__(self, fn, name, cases, bounds, covers, options):
        self.fn, self.name, self.cases, self.bounds = fn, name, cases, bounds
        self.covers, self.options = tuple(covers), options


class Registry(list):
    def __call__(self, bounds, cases=None, covers=(), name=None, **options):
        """cases: list, or function(tier) -> list of JSON-able case parameters."""
        def deco(fn):
            c = cases
            if c is None:
                c = [None]
            if not callable(c):
                lst = list(c)
                c = lambda tier: lst
            self.append(Harness(fn, name or fn.__name__, c, bounds, covers, options))
            return fn
        return deco

    def named(self, name):
        for h in self:
            if h.name == name:
                return h
        raise KeyError(name)
